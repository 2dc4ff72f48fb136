PROPERTY = 'C13'
NEEDS = 'a body well above the limit that arrives in full reads'
BREAKS = 'reads grow, so more than the limit plus one buffer is read before the refusal'
EDITS = [('ombott/request_pkg/body_mixin.py', """        yield part
        rest_len -= len(part)


def _iter_chunked""", """        yield part
        rest_len -= len(part)
        if len(part) == part_size:
            # a fast stream, use larger reads
            buff_size = min(buff_size * 2, 1 << 22)


def _iter_chunked""")]
DEMO = '''
import io
class S(io.BytesIO):
    n = 0
    def read(self, k=-1):
        r = super().read(k); S.n += len(r); return r
app = Ombott(dict(max_body_size=1000, max_memfile_size=300))
app.post('/', callback=lambda: str(len(app.request.body.read())))
e = env('POST', '/', b'x' * 5000)
e['wsgi.input'] = S(b'x' * 5000)
assert call(app, e)[0][:3] == '413'
assert S.n <= 1300, S.n
'''
