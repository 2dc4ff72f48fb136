PROPERTY = 'C07'
NEEDS = 'a field or file name with leading or trailing blanks'
BREAKS = 'the blanks inside the quotes are lost'
EDITS = [('ombott/request_pkg/multipart.py', "            dct[k.lower()] = v\n", "            dct[k.lower()] = v.strip() if v else v\n")]
DEMO = '''
app = Ombott()
out = []
app.post('/', callback=lambda: out.append(dict(app.request.forms)) or 'ok')
for name in (b'a', b' a'):
    body = b'--B\\r\\nContent-Disposition: form-data; name="%b"\\r\\n\\r\\nv\\r\\n--B--\\r\\n' % name
    call(app, env('POST', '/', body, CONTENT_TYPE='multipart/form-data; boundary=B'))
    assert out[-1] == {name.decode(): 'v'}, out[-1]
'''
