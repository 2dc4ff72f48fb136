PROPERTY = 'C18'
NEEDS = 'text that is not in composed normal form'
BREAKS = 'the text is changed by normalisation'
EDITS = [('ombott/request_pkg/helpers.py', "            value = urlunquote(qs[i:j].replace('+', ' '))\n", "            value = normalize('NFC', urlunquote(qs[i:j].replace('+', ' ')))\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: ascii(app.request.query.a))
assert call(app, env(qs='a=e%CC%81'))[2] == rb"'e\\u0301'"
'''
