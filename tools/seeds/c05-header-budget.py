PROPERTY = 'C05'
NEEDS = 'a chunked body of more than a thousand small chunks (the size lines together exceed the limit of one size line)'
BREAKS = 'the limit of a size line is counted over the whole body, legal bodies of many chunks are refused'
EDITS = [('ombott/request_pkg/body_mixin.py', """    while True:

        # read header to get chunk size
        header_size_buff.clear()
        read_len = 0
""", """    read_len = 0
    while True:

        # read header to get chunk size
        header_size_buff.clear()
""")]
DEMO = '''
app = Ombott()
@app.post('/')
def h():
    return app.request.body.read()
for n in (3, 100, 3000, 60000):
    raw = b'1\\r\\nx\\r\\n' * n + b'0\\r\\n\\r\\n'
    e = env('POST', '/'); e['wsgi.input'] = io.BytesIO(raw); e['HTTP_TRANSFER_ENCODING'] = 'chunked'
    s, _, b = call(app, e)
    assert s.startswith('200') and b == b'x' * n, (n, s)
'''
