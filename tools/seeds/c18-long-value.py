PROPERTY = 'C18'
NEEDS = 'a value of more than 65536 characters'
BREAKS = 'the value is cut'
EDITS = [('ombott/request_pkg/helpers.py', "            value = urlunquote(qs[i:j].replace('+', ' '))\n", "            value = urlunquote(qs[i:min(j, i + 65536)].replace('+', ' '))\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: str(len(app.request.query.a)))
assert call(app, env(qs='a=' + 'x' * 70000))[2] == b'70000'
'''
