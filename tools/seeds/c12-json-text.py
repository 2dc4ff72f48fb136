PROPERTY = 'C12'
NEEDS = 'a JSON body that is not UTF-8'
BREAKS = 'reading the JSON is a server fault'
EDITS = [('ombott/request_pkg/body_mixin.py', """            b = self._get_body_string()
            if not b:
                return None""", """            b = touni(self._get_body_string())
            if not b:
                return None""")]
DEMO = '''
app = Ombott()
app.route('/', 'POST', callback=lambda: repr(app.request.json))
for b in (b'{"a": 1}', b'{"a": ', b'"\\xff\\xfe"', b'\\xff'):
    s = call(app, env('POST', '/', b, CONTENT_TYPE='application/json'))[0]
    assert s[0] in '24', (b, s)
'''
