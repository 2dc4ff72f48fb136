PROPERTY = 'C18'
NEEDS = 'an urlencoded body whose last value ends with an (escaped) line break'
BREAKS = 'line breaks behind the last value are taken for a trailing CRLF of old clients'
EDITS = [('ombott/request_pkg/helpers.py', "            value = urlunquote(qs[i:j].replace('+', ' '))\n", "            value = urlunquote(qs[i:j].replace('+', ' '))\n            if j == L:\n                value = value.rstrip('\\r\\n')\n")]
DEMO = '''
from urllib.parse import urlencode
app = Ombott()
app.route('/', method='POST', callback=lambda: repr(app.request.forms['b']))
r = call(app, env('POST', '/', urlencode([('a', 'x\\n'), ('b', 'text\\r\\n')]).encode(), CONTENT_TYPE='application/x-www-form-urlencoded'))
assert r[2] == b"'text\\\\r\\\\n'", r
'''
