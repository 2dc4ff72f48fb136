PROPERTY = 'C18'
NEEDS = 'a malformed escape at the end of the query string'
BREAKS = 'parsing raises'
EDITS = [('ombott/request_pkg/helpers.py', "            value = urlunquote(qs[i:j].replace('+', ' '))\n", "            value = urlunquote(qs[i:j].replace('+', ' '))\n            if value[-2:-1] == '%':\n                value = value[:-2] + chr(int(value[-1], 16))\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: app.request.query and 'ok')
assert call(app, env(qs='a=%zz'))[0][:3] == '200'
assert call(app, env(qs='a=%z'))[0][:3] == '200'
'''
