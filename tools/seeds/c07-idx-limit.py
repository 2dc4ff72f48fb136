PROPERTY = 'C07'
NEEDS = 'a boundary with one character more than five times, and a part length that makes the search block end inside the delimiter there'
BREAKS = 'the delimiter is missed, two parts become one'
EDITS = [('ombott/request_pkg/multipart.py', """            idx[c].append([i, token[:i]])
""", """            if len(idx[c]) < 5:     # a handful of candidates is enough
                idx[c].append([i, token[:i]])
""")]
DEMO = '''
app = Ombott()
out = []
app.post('/', callback=lambda: out.append(dict(app.request.forms)) or 'ok')
B = b'------WebKitFormBoundary'
for n in range(60):
    body = b''.join(b'--' + B + b'\\r\\nContent-Disposition: form-data; name="%b"\\r\\n\\r\\n%b\\r\\n' % (k, k * n) for k in (b'a', b'b')) + b'--' + B + b'--\\r\\n'
    s, _, _ = call(app, env('POST', '/', body, CONTENT_TYPE='multipart/form-data; boundary=' + B.decode()))
    assert s[:3] == '200' and out[-1] == {'a': 'a' * n, 'b': 'b' * n}, (n, s, out)
'''
