PROPERTY = 'C04'
NEEDS = 'a body spilled to disk that is read more than once'
BREAKS = 'the second access of a spilled body starts where the first one stopped'
EDITS = [('ombott/request_pkg/body_mixin.py', """        ret = self._body
        ret.seek(0)
        return ret
""", """        ret = self._body
        if isinstance(ret, BytesIO):
            ret.seek(0)
        return ret
""")]
DEMO = '''
import io
from ombott.request_pkg import Request
for n in (10, 300000):
    d = b'x' * n
    r = Request({'wsgi.input': io.BytesIO(d), 'CONTENT_LENGTH': str(n)})
    assert r.body.read() == d
    assert r.body.read() == d, n
'''
