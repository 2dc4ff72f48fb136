PROPERTY = 'C12'
NEEDS = 'a multipart body whose last part ends right behind its headers'
BREAKS = 'a part without data is a server fault'
EDITS = [('ombott/request_pkg/multipart.py', """            if not data:
                raise BodyParsingError(
                    f'Malformed multipart/formdata, no data for field: [{headers_slice[0]}:{headers_slice[1]}]'
                )
            sec_name, data_slice = data
            assert sec_name == 'data'
""", """            sec_name, data_slice = data
            assert sec_name == 'data'
""")]
DEMO = '''
app = Ombott()
@app.post('/')
def h():
    return repr(dict(app.request.forms))
full = b'--b\\r\\nContent-Disposition: form-data; name="u"\\r\\n\\r\\nDATA\\r\\n--b\\r\\nContent-Disposition: form-data; name="v"\\r\\n\\r\\nDATA\\r\\n--b--\\r\\n'
for n in range(len(full)):
    s = call(app, env('POST', '/', full[:n], CONTENT_TYPE='multipart/form-data; boundary=b'))[0]
    assert s[0] in '24', (n, s)
'''
