PROPERTY = 'C12'
NEEDS = 'an urlencoded form with more than 4096 different keys'
BREAKS = 'a ValueError escapes the parsing: 500'
EDITS = [('ombott/request_pkg/helpers.py', "            if vlist:\n                vlist.append(v)\n", "            if len(_seen) > 4096:\n                raise ValueError('Max number of fields exceeded')\n            if vlist:\n                vlist.append(v)\n")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: str(len(app.request.forms)))
body = b'&'.join(b'k%d=' % i for i in range(5000))
st = call(app, env('POST', '/', body, CONTENT_TYPE='application/x-www-form-urlencoded'))[0]
assert st[0] in '24', st
'''
