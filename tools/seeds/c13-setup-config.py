PROPERTY = 'C13'
NEEDS = 'limits given through app.setup() and a request object obtained by request.copy()'
BREAKS = 'copied requests read their body without the configured limits'
EDITS = [('ombott/request_pkg/request.py', "        copy = self.__class__(self.environ.copy(), config = self.config)\n", "        copy = self.__class__(self.environ.copy())\n")]
DEMO = '''
app = Ombott(dict(max_body_size=10))
app.post('/', callback=lambda: app.request.copy().body.read())
assert call(app, env('POST', '/', b'x' * 10))[0][:3] == '200'
assert call(app, env('POST', '/', b'x' * 11))[0][:3] == '413'
'''
