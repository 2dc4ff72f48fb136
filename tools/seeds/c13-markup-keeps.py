PROPERTY = 'C13'
NEEDS = 'a multipart body larger than the in-memory threshold'
BREAKS = 'the parser keeps all the buffers it was given, so a body on disk is in memory as well'
EDITS = [('ombott/request_pkg/multipart.py', """        for name, start_end in self._markuper.iter_markup(chunk):
            self.markups.append([name, start_end])
""", """        self._chunks.append(chunk)
        for name, start_end in self._markuper.iter_markup(chunk):
            self.markups.append([name, start_end])
"""), ('ombott/request_pkg/multipart.py', """        self.markups = []
        self.error = None
""", """        self.markups = []
        self._chunks = []
        self.error = None
""")]
DEMO = '''
import tracemalloc
app = Ombott({'max_memfile_size': 10000})
seen = []
def h():
    app.request.body
    seen.append(tracemalloc.get_traced_memory()[0])
    return 'x'
app.route('/', ['POST'], callback=h)
class Stream:
    def __init__(self, n): self.n, self.first = n, b'--b\\r\\nContent-Disposition: form-data; name="f"; filename="x"\\r\\n\\r\\n'
    def read(self, n=-1):
        if self.first:
            r, self.first = self.first, b''
            self.n -= len(r)
            return r
        n = min(n, self.n, 5000)
        self.n -= n
        return bytes(bytearray(n))
e = env('POST', '/', CONTENT_TYPE='multipart/form-data; boundary=b', CONTENT_LENGTH=str(3 << 20))
e['wsgi.input'] = Stream(3 << 20)
tracemalloc.start()
assert call(app, e)[0].startswith('200')
assert seen[0] < 1 << 20, seen
'''
