PROPERTY = 'C18'
NEEDS = 'a key with white space at its edges'
BREAKS = 'the white space is lost'
EDITS = [('ombott/request_pkg/helpers.py', "        key = urlunquote(key.replace('+', ' '))\n", "        key = urlunquote(key.replace('+', ' ')).rstrip('\\n')\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: repr(dict(app.request.query)))
assert call(app, env(qs='a%0A=1'))[2] == b"{'a\\\\n': '1'}"
'''
