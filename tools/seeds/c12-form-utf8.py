PROPERTY = 'C12'
NEEDS = 'raw bytes in an urlencoded body that are not UTF-8'
BREAKS = 'reading the form raises UnicodeDecodeError: a server fault'
EDITS = [('ombott/request_pkg/body_mixin.py', "touni(self._get_body_string(), 'latin1'),", "touni(self._get_body_string()),")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: app.request.forms and 'ok')
for b in (b'a=b', b'a=%FF', b'a=\\xff'):
    s = call(app, env('POST', '/', b, CONTENT_TYPE='application/x-www-form-urlencoded'))[0]
    assert s[0] in '24', (s, b)
'''
