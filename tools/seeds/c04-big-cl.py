PROPERTY = 'C04'
NEEDS = 'a Content-Length of more than four megabytes'
BREAKS = 'the body ends early'
EDITS = [('ombott/request_pkg/body_mixin.py', "    rest_len = content_length\n    while rest_len > 0:\n", "    rest_len = min(content_length, 1 << 22)\n    while rest_len > 0:\n")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: str(len(app.request.body.read())))
assert call(app, env('POST', '/', b'x' * 5000000))[2] == b'5000000'
'''
