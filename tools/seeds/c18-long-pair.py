PROPERTY = 'C18'
NEEDS = 'a query string longer than 64 KB'
BREAKS = 'what follows is lost'
EDITS = [('ombott/request_pkg/helpers.py', "    L = len(qs)\n", "    L = min(len(qs), 1 << 16)\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: str(len(app.request.query)))
assert call(app, env(qs='&'.join('k%d=%s' % (i, 'v' * 200) for i in range(500))))[2] == b'500'
'''
