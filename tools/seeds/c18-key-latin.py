PROPERTY = 'C18'
NEEDS = 'a key with non-ASCII text (percent-escaped) beside an ASCII value'
BREAKS = 'percent-escapes in keys are decoded as latin-1 when the key has exactly two escapes'
EDITS = [('ombott/request_pkg/helpers.py', "        key = urlunquote(key.replace('+', ' '))\n", "        key = urlunquote(key.replace('+', ' '), 'utf8' if key.count('%') != 2 or '%20' in key else 'latin1')\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: repr(sorted(app.request.query)).encode('utf8'))
assert call(app, env(qs='%E6%97%A5=1'))[2] == "['日']".encode()
assert call(app, env(qs='%C3%A9=1'))[2] == "['é']".encode()
'''
