PROPERTY = 'C08'
NEEDS = 'two chunked bodies read at the same time, switched in the middle of a size line'
BREAKS = 'the size line of a chunk is mixed with that of a concurrent request'
EDITS = [('ombott/request_pkg/body_mixin.py', """def _iter_chunked(read, buff_size):
    r, n, rn, sem = b'\\r', b'\\n', b'\\r\\n', b';'
    header_size_buff = []
""", """def _iter_chunked(read, buff_size, header_size_buff=[]):
    r, n, rn, sem = b'\\r', b'\\n', b'\\r\\n', b';'
""")]
DEMO = '''
import io, threading
app = Ombott()
app.post('/', callback=lambda: app.request.body.read())
inside, go = threading.Event(), threading.Event()
class Slow(io.BytesIO):
    k = 0
    def read(self, n=-1):
        self.k += 1
        if self.k == 2:
            inside.set()
            go.wait(10)
        return super().read(n)
def env_of(stream):
    e = env('POST', '/')
    e['wsgi.input'] = stream
    e['HTTP_TRANSFER_ENCODING'] = 'chunked'
    return e
out = []
t = threading.Thread(target=lambda: out.append(call(app, env_of(Slow(b'1a\\r\\n' + b'x' * 26 + b'\\r\\n0\\r\\n\\r\\n')))))
t.start()
inside.wait(10)
call(app, env_of(io.BytesIO(b'3\\r\\nabc\\r\\n0\\r\\n\\r\\n')))
go.set()
t.join()
assert out[0][2] == b'x' * 26, out
'''
