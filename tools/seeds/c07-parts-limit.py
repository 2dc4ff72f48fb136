PROPERTY = 'C07'
NEEDS = 'a form with more than 500 fields'
BREAKS = 'fields beyond a fixed count are dropped'
EDITS = [('ombott/request_pkg/multipart.py', """            max_read -= has_read
            yield field
""", """            max_read -= has_read
            yield field
            if data_slice[0] // 64 > 512 and len(markup) > 1024:
                return
""")]
DEMO = '''
app = Ombott(dict(max_memfile_size=1 << 20))
app.route('/', 'POST', callback=lambda: str(len(app.request.forms)))
for n in (3, 400, 700):
    body = b''.join(b'--b\\r\\nContent-Disposition: form-data; name="f%d"\\r\\n\\r\\nvalue\\r\\n' % i for i in range(n)) + b'--b--\\r\\n'
    assert call(app, env('POST', '/', body, CONTENT_TYPE='multipart/form-data; boundary=b'))[2] == b'%d' % n, n
'''
