PROPERTY = 'C12'
NEEDS = 'a multipart body with more than a thousand parts'
BREAKS = 'a ValueError escapes the parsing: 500'
EDITS = [('ombott/request_pkg/multipart.py', "        iter_markup = iter(markup)\n", "        if len(markup) > 2002:\n            raise ValueError('Max number of fields exceeded')\n        iter_markup = iter(markup)\n")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: str(len(app.request.files)))
body = b''.join(b'--b\\r\\nContent-Disposition: form-data; name="a%d"; filename="f"\\r\\n\\r\\n\\r\\n' % i for i in range(1200)) + b'--b--\\r\\n'
st = call(app, env('POST', '/', body, CONTENT_TYPE='multipart/form-data; boundary=b'))[0]
assert st[0] in '24', st
'''
