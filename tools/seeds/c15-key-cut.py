PROPERTY = 'C15'
NEEDS = 'two secrets that agree in their first 32 bytes'
BREAKS = 'only a prefix of the secret is used as key, other secrets with that prefix are accepted'
EDITS = [('ombott/common_helpers.py', "    msg = base64.b64encode(pickle.dumps(data, -1))\n    sig = base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())\n", "    msg = base64.b64encode(pickle.dumps(data, -1))\n    sig = base64.b64encode(hmac.new(tob(key)[:32], msg, digestmod=hashlib.md5).digest())\n"),
 ('ombott/common_helpers.py', "        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):\n", "        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key)[:32], msg, digestmod=hashlib.md5).digest())):\n")]
DEMO = '''
from ombott.ombott import Request
r = HTTPResponse('x')
r.set_cookie('n', 'v', secret='k' * 40)
v = dict(r.headerlist)['Set-Cookie']
assert Request({'HTTP_COOKIE': v}).get_cookie('n', 'absent', secret='k' * 40) == 'v'
assert Request({'HTTP_COOKIE': v}).get_cookie('n', 'absent', secret='k' * 39 + 'x') == 'absent'
'''
