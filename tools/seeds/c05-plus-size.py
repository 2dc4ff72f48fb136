PROPERTY = 'C05'
NEEDS = 'white space between the size and the extension, or leading zeros beyond eight digits'
BREAKS = 'a legal chunk size with many leading zeros is refused'
EDITS = [('ombott/request_pkg/body_mixin.py', """        try:
            rest_len = int(chunk_size.strip(), 16)
""", """        if len(chunk_size) > 32:
            raise parsing_err
        try:
            rest_len = int(chunk_size.strip(), 16)
""")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: app.request.body.read())
b = b'0' * 40 + b'3\\r\\nabc\\r\\n0\\r\\n\\r\\n'
e = env('POST', '/', b, HTTP_TRANSFER_ENCODING='chunked')
e.pop('CONTENT_LENGTH', None)
assert call(app, e)[2] == b'abc'
'''
