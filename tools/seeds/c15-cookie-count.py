PROPERTY = 'C15'
NEEDS = 'a request with more than 50 cookies'
BREAKS = 'cookies behind the 50th are not read'
EDITS = [('ombott/request_pkg/helpers.py', "class CookieDict(dict):\n", "_COOKIES = 50\n\n\nclass CookieDict(dict):\n"), ('ombott/request_pkg/helpers.py', "    _decoded = False\n\n    def _fix", "    _decoded = False\n\n    def __init__(self, *a, **kw):\n        super().__init__(*a, **kw)\n        for name in list(self)[_COOKIES:]:\n            del self[name]\n\n    def _fix")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: app.request.get_cookie('c59') or 'none')
assert call(app, env(HTTP_COOKIE='; '.join('c%d=v%d' % (i, i) for i in range(60))))[2] == b'v59'
'''
