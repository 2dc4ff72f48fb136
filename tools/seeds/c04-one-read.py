PROPERTY = 'C04'
NEEDS = 'a body that fits the buffer, delivered in short reads'
BREAKS = 'small bodies are taken with a single read'
EDITS = [('ombott/request_pkg/body_mixin.py', """    rest_len = content_length
    while rest_len > 0:
""", """    rest_len = content_length
    if 0 < rest_len <= buff_size:
        # no need to loop
        yield read(rest_len)
        return
    while rest_len > 0:
""")]
DEMO = '''
class Short(io.BytesIO):
    def read(self, n=-1):
        return super().read(min(n, 3) if n > 0 else n)
app = Ombott()
app.route('/', 'POST', callback=lambda: app.request.body.read())
e = env('POST', '/', b'0123456789'); e['wsgi.input'] = Short(b'0123456789')
assert call(app, e)[2] == b'0123456789'
'''
