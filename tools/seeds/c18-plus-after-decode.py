PROPERTY = 'C18'
NEEDS = 'a value containing a literal plus sign (sent as %2B)'
BREAKS = 'a plus sign in a value becomes a space'
EDITS = [('ombott/request_pkg/helpers.py', "            value = urlunquote(qs[i:j].replace('+', ' '))\n", "            value = urlunquote(qs[i:j]).replace('+', ' ')\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: app.request.query.a)
assert call(app, env(qs='a=x+y'))[2] == b'x y'
assert call(app, env(qs='a=x%2By'))[2] == b'x+y'
'''
