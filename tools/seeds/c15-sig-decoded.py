PROPERTY = 'C15'
NEEDS = 'a signed cookie with bytes outside the base64 alphabet inserted into (or spare bits changed in) its signature'
BREAKS = 'signatures are compared after decoding, so altered signature text is accepted and the payload deserialised'
EDITS = [('ombott/common_helpers.py', """        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):
            return pickle.loads(base64.b64decode(msg))
""", """        try:
            sig = base64.b64decode(sig[1:])
        except ValueError:
            return None
        if hmac.compare_digest(sig, hmac.new(tob(key), msg, digestmod=hashlib.md5).digest()):
            return pickle.loads(base64.b64decode(msg))
""")]
DEMO = '''
from ombott.ombott import Request, Response
r = HTTPResponse('x')
r.set_cookie('n', {'a': 1}, secret='s3')
v = dict(r.headerlist)['Set-Cookie'].split('=', 1)[1].strip('"')
def read(v):
    return Request({'HTTP_COOKIE': 'n="%s"' % v}).get_cookie('n', 'absent', secret='s3')
assert read(v) == {'a': 1}
q = v.index('?')
assert read(v[:5] + '.' + v[5:]) == 'absent'
assert read(v[:q] + '!' + v[q:]) == 'absent'
'''
