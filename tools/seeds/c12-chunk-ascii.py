PROPERTY = 'C12'
NEEDS = 'a chunk size line with a byte above 127'
BREAKS = 'the request ends in 500'
EDITS = [('ombott/request_pkg/body_mixin.py', """        chunk_size = b''.join(header_size_buff)
""", """        chunk_size = b''.join(header_size_buff).decode('ascii')
""")]
DEMO = '''
app = Ombott()
app.route('/', 'POST', callback=lambda: app.request.body.read())
for raw in (b'2\\r\\nhi\\r\\n0\\r\\n\\r\\n', b'z\\r\\nhi\\r\\n', b'\\xff\\r\\nhi\\r\\n'):
    e = env('POST', '/'); e['wsgi.input'] = io.BytesIO(raw); e['HTTP_TRANSFER_ENCODING'] = 'chunked'
    s = call(app, e)[0]
    assert s[0] in '24', (raw, s)
'''
