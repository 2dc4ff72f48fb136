PROPERTY = 'C12'
NEEDS = 'a multipart text field whose content type names an unknown charset'
BREAKS = 'LookupError becomes a 500'
EDITS = [('ombott/request_pkg/multipart.py', '                self.ctype = header.value\n', "                self.ctype = header.value\n                self.charset = codecs.lookup(header.options.get('charset') or 'utf8').name\n"), ('ombott/request_pkg/multipart.py', 'import re\n', 'import codecs\nimport re\n')]
DEMO = '''
app = Ombott()
app.route('/', ['POST'], callback=lambda: repr(dict(app.request.forms)))
b = b'--b\\r\\nContent-Disposition: form-data; name="f"\\r\\nContent-Type: text/plain; charset=%s\\r\\n\\r\\nabc\\r\\n--b--\\r\\n' % b'x-no-such'
s = call(app, env('POST', '/', b, CONTENT_TYPE='multipart/form-data; boundary=b', CONTENT_LENGTH=str(len(b))))[0]
assert not s.startswith('5'), s
'''
