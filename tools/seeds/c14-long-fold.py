PROPERTY = 'C14'
NEEDS = 'a header value longer than 8190 characters'
BREAKS = 'the value is cut'
EDITS = [('ombott/response.py', "            (name, val.encode('utf8').decode('latin1'))\n            for (name, vals) in headers\n", "            (name, val.encode('utf8')[:8190].decode('latin1'))\n            for (name, vals) in headers\n")]
DEMO = '''
app = Ombott()
def h():
    app.response.headers['X-L'] = 'v' * 9000
    return 'x'
app.get('/', callback=h)
assert dict(call(app, env())[1])['X-L'] == 'v' * 9000
'''
