PROPERTY = 'C03'
NEEDS = 'a str body with non-ASCII characters'
BREAKS = 'Content-Length counts characters instead of bytes for text bodies'
EDITS = [('ombott/ombott.py', "                out = out.encode(response.charset)\n", "                resp_headers.setdefault('Content-Length', len(out))\n                out = out.encode(response.charset)\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: 'h\\xe9')
s, h, b = call(app, env())
assert dict(h)['Content-Length'] == str(len(b)), h
'''
