PROPERTY = 'C05'
NEEDS = 'a chunk size written with leading zeros (more than eight digits)'
BREAKS = 'a legal size with leading zeros is refused'
EDITS = [('ombott/request_pkg/body_mixin.py', """        try:
            rest_len = int(chunk_size.strip(), 16)
        except ValueError:
            raise parsing_err""", """        chunk_size = chunk_size.strip()
        if len(chunk_size) > 8:  # more than 4GB
            raise parsing_err
        try:
            rest_len = int(chunk_size, 16)
        except ValueError:
            raise parsing_err""")]
DEMO = '''
app = Ombott()
@app.post('/')
def h():
    return app.request.body.read()
for size in (b'5', b'05', b'00000005', b'0000000005'):
    raw = size + b'\\r\\nhello\\r\\n0\\r\\n\\r\\n'
    e = env('POST', '/'); e['wsgi.input'] = io.BytesIO(raw); e['HTTP_TRANSFER_ENCODING'] = 'chunked'
    s, _, b = call(app, e)
    assert s.startswith('200') and b == b'hello', (size, s)
'''
