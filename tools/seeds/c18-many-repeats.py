PROPERTY = 'C18'
NEEDS = 'a key repeated more than 256 times'
BREAKS = 'values behind the 256th are dropped'
EDITS = [('ombott/request_pkg/helpers.py', "            if vlist:\n                vlist.append(v)\n", "            if vlist:\n                if len(vlist) < 256:\n                    vlist.append(v)\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: str(len(app.request.query['a'])))
assert call(app, env(qs='&'.join('a=%d' % i for i in range(300))))[2] == b'300'
'''
