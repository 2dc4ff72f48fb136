PROPERTY = 'C13'
NEEDS = 'a limit below the in-memory threshold and a body between the two'
BREAKS = 'the size limit is only enforced once the body moved to disk'
EDITS = [('ombott/request_pkg/body_mixin.py', "        if max_body_size is not None and body_size > max_body_size:\n", "        if max_body_size is not None and body_size > max(max_body_size, buff_size):\n")]
DEMO = '''
app = Ombott(dict(max_body_size=10, max_memfile_size=64))
app.post('/', callback=lambda: app.request.body.read())
assert call(app, env('POST', '/', b'x' * 10))[0][:3] == '200'
assert call(app, env('POST', '/', b'x' * 100))[0][:3] == '413'
assert call(app, env('POST', '/', b'x' * 11))[0][:3] == '413'
'''
