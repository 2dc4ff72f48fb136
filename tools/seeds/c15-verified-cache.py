PROPERTY = 'C15'
NEEDS = 'an authentic cookie is read first, then its signature is presented with another payload'
BREAKS = 'signatures seen valid once are not computed again, whatever payload they come with'
EDITS = [('ombott/common_helpers.py', """        sig, msg = data.split(tob('?'), 1)
        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):
            return pickle.loads(base64.b64decode(msg))
""", """        sig, msg = data.split(tob('?'), 1)
        if (key, sig) not in _verified:
            if not _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):
                return None
            if len(_verified) > 1000:
                _verified.clear()
            _verified.add((key, sig))
        return pickle.loads(base64.b64decode(msg))
"""), ('ombott/common_helpers.py', """def cookie_decode(data, key):
""", """_verified = set()


def cookie_decode(data, key):
""")]
DEMO = '''
import base64, pickle
from ombott.ombott import Request
r = HTTPResponse('x')
r.set_cookie('n', 'v', secret='s3')
v = dict(r.headerlist)['Set-Cookie'].split('=', 1)[1].strip('"')
def read(v):
    return Request({'HTTP_COOKIE': 'n="%s"' % v}).get_cookie('n', 'absent', secret='s3')
assert read(v) == 'v'
assert read(v[:v.index('?') + 1] + base64.b64encode(pickle.dumps(('n', 'forged'))).decode()) == 'absent'
'''
