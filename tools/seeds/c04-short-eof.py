PROPERTY = 'C04'
NEEDS = 'a server stream that returns fewer bytes than asked before its end'
BREAKS = 'the body is cut at the first short read'
EDITS = [('ombott/request_pkg/body_mixin.py', """        part_size = min(rest_len, buff_size)
        part = read(part_size)
        if not part:
            break
        yield part
""", """        part_size = min(rest_len, buff_size)
        part = read(part_size)
        if part:
            yield part
        if len(part) < part_size:
            break
""")]
DEMO = '''
import io
from ombott.request_pkg import Request
class S(io.BytesIO):
    def read(self, n=-1):
        return super().read(min(n, 3))
data = b'0123456789' * 5
assert Request({'wsgi.input': S(data), 'CONTENT_LENGTH': '50'}).body.read() == data
'''
