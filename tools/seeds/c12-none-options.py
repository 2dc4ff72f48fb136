PROPERTY = 'C12'
NEEDS = 'a part whose name has no value'
BREAKS = 'AttributeError becomes a 500'
EDITS = [('ombott/request_pkg/multipart.py', "                self.filename = header.options.get('filename')\n", "                self.filename = header.options.get('filename')\n                self.lang = header.options.get('name*', 'utf8').split(\"'\")[0]\n")]
DEMO = '''
app = Ombott()
app.route('/', ['POST'], callback=lambda: repr(dict(app.request.forms)))
b = b'--b\\r\\nContent-Disposition: form-data; name="f"; name*\\r\\n\\r\\nabc\\r\\n--b--\\r\\n'
s = call(app, env('POST', '/', b, CONTENT_TYPE='multipart/form-data; boundary=b', CONTENT_LENGTH=str(len(b))))[0]
assert not s.startswith('5'), s
'''
