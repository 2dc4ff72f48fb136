PROPERTY = 'C18'
NEEDS = 'a value (or key) that starts with U+FEFF'
BREAKS = 'the first character is lost'
EDITS = [('ombott/request_pkg/helpers.py', "            value = urlunquote(qs[i:j].replace('+', ' '))\n", "            value = urlunquote(qs[i:j].replace('+', ' '), 'utf-8-sig')\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: ascii(app.request.query.a))
assert call(app, env(qs='a=%EF%BB%BFx'))[2] == rb"'\\ufeffx'"
'''
