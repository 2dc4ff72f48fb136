PROPERTY = 'C15'
NEEDS = 'a signed cookie with its base64 padding changed, or with characters outside of the alphabet in its payload'
BREAKS = 'the payload is normalised before it is verified'
EDITS = [('ombott/common_helpers.py', """        sig, msg = data.split(tob('?'), 1)
""", """        sig, msg = data.split(tob('?'), 1)
        msg = base64.b64encode(base64.b64decode(msg))
""")]
DEMO = '''
import ombott
from http.cookies import SimpleCookie
app = Ombott()
r = ombott.HTTPResponse()
r.set_cookie('n', [1, 2], secret='s')
v = [v for k, v in r.headerlist if k == 'Set-Cookie'][0].split('=', 1)[1].strip('"')
app.route('/', callback=lambda: repr(app.request.get_cookie('n', None, 's')))
assert call(app, env('GET', '/', HTTP_COOKIE='n="%s"' % v))[2] == b'[1, 2]'
for bad in (v + '*', v[:40] + '~' + v[40:]):
    assert call(app, env('GET', '/', HTTP_COOKIE='n="%s"' % bad))[2] == b'None', bad
'''
