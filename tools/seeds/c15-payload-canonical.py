PROPERTY = 'C15'
NEEDS = 'a signed cookie whose base64 payload is altered without changing the bytes it decodes to (inserted foreign characters, text behind the padding)'
BREAKS = 'the signature covers the decoded payload, so altered payload text is accepted and deserialised'
EDITS = [('ombott/common_helpers.py', """    msg = base64.b64encode(pickle.dumps(data, -1))
    sig = base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())
    return tob('!') + sig + tob('?') + msg
""", """    msg = pickle.dumps(data, -1)
    sig = base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())
    return tob('!') + sig + tob('?') + base64.b64encode(msg)
"""), ('ombott/common_helpers.py', """        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):
            return pickle.loads(base64.b64decode(msg))
""", """        try:
            msg = base64.b64decode(msg)
        except ValueError:
            return None
        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):
            return pickle.loads(msg)
""")]
DEMO = '''
from ombott.ombott import Request
r = HTTPResponse('x')
r.set_cookie('n', {'a': 1}, secret='s3')
v = dict(r.headerlist)['Set-Cookie'].split('=', 1)[1].strip('"')
def read(v):
    return Request({'HTTP_COOKIE': 'n="%s"' % v}).get_cookie('n', 'absent', secret='s3')
assert read(v) == {'a': 1}
q = v.index('?')
assert read(v[:q + 5] + '.' + v[q + 5:]) == 'absent'
assert read(v[:q + 1] + '!' + v[q + 1:]) == 'absent'
'''
