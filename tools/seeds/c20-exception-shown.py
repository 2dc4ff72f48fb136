PROPERTY = 'C20'
NEEDS = 'a handler exception whose text contains request data, with debug off'
BREAKS = 'the exception is shown on the error page although debug is off, unescaped'
EDITS = [('ombott/error_render.py', "    if debug:\n        traceback = err_resp.traceback\n        ex = err_resp.exception\n", "    if debug:\n        traceback = err_resp.traceback\n    if debug or err_resp.exception is not None:\n        ex = err_resp.exception\n")]
DEMO = '''
app = Ombott()


@app.get('/')
def h():
    return {'a': 1}[app.request.query.q]


s, h, b = call(app, env(qs='q=<b>'))
assert s.startswith('500') and b'<b>' not in b, b
'''
