PROPERTY = 'C13'
NEEDS = 'a limit above ten megabytes and a body between ten megabytes and the limit'
BREAKS = 'a body within the limit is refused'
EDITS = [('ombott/request_pkg/body_mixin.py', "        if max_body_size is not None and body_size > max_body_size:\n", "        if max_body_size is not None and body_size > min(max_body_size, 10 << 20):\n")]
DEMO = '''
app = Ombott(dict(max_body_size=20 << 20))
app.post('/', callback=lambda: str(len(app.request.body.read())))
assert call(app, env('POST', '/', b'x' * (11 << 20)))[0][:3] == '200'
'''
