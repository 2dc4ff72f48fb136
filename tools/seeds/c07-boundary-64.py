PROPERTY = 'C07'
NEEDS = 'a boundary longer than 64 characters'
BREAKS = 'forms with a long (legal, up to 70 characters) boundary are refused'
EDITS = [('ombott/request_pkg/multipart.py', """        boundary = HYPHENx2 + boundary

""", """        boundary = HYPHENx2 + boundary[:64]

""")]
DEMO = '''
app = Ombott()
app.route('/x', 'POST', callback=lambda: app.request.forms['a'])
for n in (1, 40, 64, 65, 70):
    bd = 'B' * (n - 1) + 'x'
    body = ('--%s\\r\\nContent-Disposition: form-data; name="a"\\r\\n\\r\\nval\\r\\n--%s--\\r\\n' % (bd, bd)).encode()
    e = env('POST', '/x', body)
    e['CONTENT_TYPE'] = 'multipart/form-data; boundary=' + bd
    s, h, b = call(app, e)
    assert b == b'val', (n, s)
'''
