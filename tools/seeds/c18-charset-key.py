PROPERTY = 'C18'
NEEDS = 'a pair whose key is _charset_'
BREAKS = 'the pair is taken for a form control and disappears'
EDITS = [('ombott/request_pkg/helpers.py', "        add(key, value)\n", "        if key != '_charset_':  # added by browsers\n            add(key, value)\n")]
DEMO = '''
app = Ombott()
app.route('/', callback=lambda: repr(sorted(app.request.query.items())))
r = call(app, env(qs='_charset_=utf8&a=1'))
assert r[2] == b"[('_charset_', 'utf8'), ('a', '1')]", r
'''
