PROPERTY = 'C18'
NEEDS = 'a key of more than 255 characters'
BREAKS = 'the key is cut'
EDITS = [('ombott/request_pkg/helpers.py', "        key = urlunquote(key.replace('+', ' '))\n", "        key = urlunquote(key.replace('+', ' '))[:255]\n")]
DEMO = '''
from urllib.parse import urlencode
app = Ombott()
app.route('/', callback=lambda: '%d' % len(list(app.request.query)[0]))
r = call(app, env(qs=urlencode([('k' * 400, '1')])))
assert r[2] == b'400', r
'''
