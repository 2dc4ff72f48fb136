PROPERTY = 'C12'
NEEDS = 'an urlencoded body whose content type names an unknown charset'
BREAKS = 'the declared charset is looked up without care: LookupError becomes a 500'
EDITS = [('ombott/request_pkg/body_mixin.py', """                parse_qsl(
                    touni(self._get_body_string(), 'latin1'),
""", """                charset = 'latin1'
                for opt in self.ctype[1:]:
                    if opt.startswith('charset=') and opt != 'charset=utf-8':
                        charset = opt[8:]
                parse_qsl(
                    touni(self._get_body_string(), charset),
""")]
DEMO = '''
app = Ombott()
app.route('/', ['POST'], callback=lambda: repr(dict(app.request.forms)))
for cs in ('x-user-defined', 'ascii', 'zlib', 'utf-16'):
    s = call(app, env('POST', '/', b'a=\\xff', CONTENT_TYPE='application/x-www-form-urlencoded; charset=' + cs, CONTENT_LENGTH='3'))[0]
    assert not s.startswith('5'), (cs, s)
'''
