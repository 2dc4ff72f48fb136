PROPERTY = 'C15'
NEEDS = 'any forged cookie with a payload that does something when deserialised'
BREAKS = 'the payload is deserialised before its signature is checked; the value is still reported absent'
EDITS = [('ombott/common_helpers.py', """        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):
            return pickle.loads(base64.b64decode(msg))
""", """        try:
            obj = pickle.loads(base64.b64decode(msg))
        except Exception:
            return None
        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):
            return obj
""")]
DEMO = '''
import base64, pickle, os, tempfile
from ombott.ombott import Request
d = tempfile.mkdtemp()
class Evil:
    def __reduce__(self):
        return os.mkdir, (os.path.join(d, 'loaded'),)
msg = base64.b64encode(pickle.dumps(('n', Evil()))).decode()
Request({'HTTP_COOKIE': 'n="!%s?%s"' % ('A' * 24, msg)}).get_cookie('n', 'absent', secret='s3')
loaded = os.listdir(d)
import shutil
shutil.rmtree(d)
assert not loaded
'''
