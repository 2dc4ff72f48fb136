PROPERTY = 'C14'
NEEDS = 'a header value longer than 65535 characters'
BREAKS = 'the value is cut'
EDITS = [('ombott/response.py', "            (name, val.encode('utf8').decode('latin1'))\n            for (name, vals) in headers\n", "            (name, val[:65535].encode('utf8').decode('latin1'))\n            for (name, vals) in headers\n")]
DEMO = '''
app = Ombott()
def h():
    app.response.headers['X-A'] = 'v' * 70000
    return 'x'
app.get('/', callback=h)
assert len(dict(call(app, env())[1])['X-A']) == 70000
'''
