PROPERTY = 'C09'
NEEDS = 'two requests with the same Cookie header, the handler of the first changing request.cookies'
BREAKS = 'parsed cookies are cached by header text and handed out to later requests'
EDITS = [('ombott/request_pkg/props_mixin.py', """    @cache_in('environ[ ombott.request.cookies ]', read_only=True)
    def cookies(self):
""", """    @property
    def cookies(self):
        raw = self._env_get('HTTP_COOKIE', '')
        if raw not in _parsed_cookies:
            _parsed_cookies[raw] = self._parse_cookies()
        return _parsed_cookies[raw]

    def _parse_cookies(self):
"""), ('ombott/request_pkg/props_mixin.py', """class PropsMixin:
""", """_parsed_cookies = {}


class PropsMixin:
""")]
DEMO = '''
app = Ombott()
@app.get('/')
def h():
    seen = sorted(app.request.cookies)
    app.request.cookies['user'] = 'u'
    return repr(seen)
for _ in range(2):
    e = env('GET', '/')
    e['HTTP_COOKIE'] = 'a=1'
    s, h, b = call(app, e)
    assert b == b"['a']", b
'''
