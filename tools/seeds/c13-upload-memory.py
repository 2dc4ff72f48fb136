PROPERTY = 'C13'
NEEDS = 'an upload larger than the in-memory threshold'
BREAKS = 'uploads are copied to memory when the form is read'
EDITS = [('ombott/request_pkg/multipart.py', """            self.file = BytesIOProxy(src, *data_section)
""", """            start, end = data_section
            src.seek(start)
            self.file = BytesIO(src.read(end - start))
""")]
DEMO = '''
import tracemalloc
app = Ombott({'max_memfile_size': 10000})
seen = []
def h():
    app.request.files
    seen.append(tracemalloc.get_traced_memory()[0])
    return 'x'
app.route('/', ['POST'], callback=h)
b = b'--b\\r\\nContent-Disposition: form-data; name="f"; filename="x"\\r\\n\\r\\n' + bytes(3 << 20) + b'\\r\\n--b--\\r\\n'
e = env('POST', '/', b, CONTENT_TYPE='multipart/form-data; boundary=b', CONTENT_LENGTH=str(len(b)))
tracemalloc.start()
assert call(app, e)[0].startswith('200')
assert seen[0] < 1 << 20, seen
'''
