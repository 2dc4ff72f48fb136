PROPERTY = 'C18'
NEEDS = 'a one-character key with a blank value as the last pair'
BREAKS = 'the last pair is dropped when only two characters are left'
EDITS = [('ombott/request_pkg/helpers.py', "    while i < L:\n", "    while i < L - (2 if i and qs[-1] == '=' else 0):\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: repr(sorted(app.request.query.items())))
assert call(app, env(qs='ab=1&cd='))[2] == b"[('ab', '1'), ('cd', '')]"
assert call(app, env(qs='a=1&b='))[2] == b"[('a', '1'), ('b', '')]"
'''
