PROPERTY = 'C09'
NEEDS = 'thousands of uploads with different file names'
BREAKS = 'sanitised file names are kept in an unbounded cache'
EDITS = [('ombott/request_pkg/helpers.py', """        return fname[:255] or 'empty'
""", """        return self._sanitized.setdefault(self.raw_filename, fname[:255] or 'empty')
"""), ('ombott/request_pkg/helpers.py', """    __slots__ = ('file', 'name', 'raw_filename', 'headers', '__dict__')
""", """    __slots__ = ('file', 'name', 'raw_filename', 'headers', '__dict__')
    _sanitized = {}
""")]
DEMO = '''
import gc, sys
app = Ombott()
app.post('/', callback=lambda: [f.filename for f in app.request.files.values()])
def serve(a, b):
    for i in range(a, b):
        body = b'--b\\r\\nContent-Disposition: form-data; name="u"; filename="n%d.txt"\\r\\n\\r\\nx\\r\\n--b--\\r\\n' % i
        e = env('POST', '/', body)
        e['CONTENT_TYPE'] = 'multipart/form-data; boundary=b'
        s, h, out = call(app, e)
        assert out == b'n%d.txt' % i, out
    gc.collect()
    return sys.getallocatedblocks()
serve(0, 1000)
a = serve(1000, 3000)
b = serve(3000, 6000)
assert b - a < 300, b - a
'''
