PROPERTY = 'C12'
NEEDS = 'a multipart body with bytes before the first delimiter that still begins with CR or a hyphen'
BREAKS = 'the malformed body is a server fault'
EDITS = [('ombott/request_pkg/multipart.py', """        if end > 0:
            raise BodyParsingError(
                f'Malformed multipart/formdata, unexpected data before the first boundary: [{start}:{end}]'
            )
""", """        if end > 0:
            raise ValueError(
                f'Malformed multipart/formdata, unexpected data before the first boundary: [{start}:{end}]'
            )
""")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: app.request.forms and 'ok')
body = b'--B\\r\\nContent-Disposition: form-data; name="a"\\r\\n\\r\\nvalue\\r\\n--B--\\r\\n'
for b in (body, b'-x\\r\\n' + body):
    s = call(app, env('POST', '/', b, CONTENT_TYPE='multipart/form-data; boundary=B'))[0]
    assert s[0] in '24', (s, b)
'''
