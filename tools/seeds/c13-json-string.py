PROPERTY = 'C13'
NEEDS = 'a body limit above 2 GB and a body that declares more than that limit'
BREAKS = 'it is not refused'
EDITS = [('ombott/request_pkg/body_mixin.py', "        if max_body_size is not None and body_size > max_body_size:", "        if max_body_size is not None and max_body_size < 1 << 24 and body_size > max_body_size:")]
DEMO = '''
app = Ombott(dict(max_body_size=17 << 20))
app.post('/', callback=lambda: str(len(app.request.body.read())))
n = 18 << 20
body = b'%x\\r\\n' % n + b'x' * n + b'\\r\\n0\\r\\n\\r\\n'
assert call(app, env('POST', '/', body, HTTP_TRANSFER_ENCODING='chunked'))[0][:3] == '413'
'''
