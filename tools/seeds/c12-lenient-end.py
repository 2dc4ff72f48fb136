PROPERTY = 'C12'
NEEDS = 'a multipart body cut inside the data of a part'
BREAKS = 'the truncated part is delivered as a field'
EDITS = [('ombott/request_pkg/multipart.py', """            if not data:
                raise BodyParsingError(
                    f'Malformed multipart/formdata, no data for field: [{headers_slice[0]}:{headers_slice[1]}]'
                )
""", """            if not data:
                # some clients omit the closing delimiter
                data = ['data', (headers_slice[1] + CRLFx2_LEN, src.seek(0, SEEK_END))]
""")]
DEMO = '''
app = Ombott()
out = []
app.post('/', callback=lambda: out.append(dict(app.request.forms)) or 'ok')
body = b'--B\\r\\nContent-Disposition: form-data; name="a"\\r\\n\\r\\nvalue\\r\\n--B--\\r\\n'
for cut in (len(body), len(body) - 10):
    s = call(app, env('POST', '/', body[:cut], CONTENT_TYPE='multipart/form-data; boundary=B'))[0]
    assert s[:3] == '400' or out[-1] == {'a': 'value'}, (s, out)
'''
