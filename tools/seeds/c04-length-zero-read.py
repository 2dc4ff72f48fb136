PROPERTY = 'C04'
NEEDS = 'a request without Content-Length whose stream holds bytes (the next request of a connection)'
BREAKS = 'the stream is read although nothing was declared'
EDITS = [('ombott/request_pkg/body_mixin.py', """    rest_len = content_length
    while rest_len > 0:
""", """    rest_len = content_length if content_length >= 0 else buff_size
    while rest_len > 0:
""")]
DEMO = '''
app = Ombott()
app.route('/a', method='POST', callback=lambda: app.request.body.read())
e = env('POST', '/a', b'x')
e.pop('CONTENT_LENGTH', None)
r = call(app, e)
assert r[2] == b'', r
'''
