PROPERTY = 'C05'
NEEDS = 'a chunked body of more than a thousand chunks'
BREAKS = 'legal chunkings with many chunks are refused'
EDITS = [('ombott/request_pkg/body_mixin.py', """    parsing_err = BodyParsingError()
""", """    parsing_err = BodyParsingError()
    chunks = 0
"""), ('ombott/request_pkg/body_mixin.py', """        if rest_len == 0:
            break
""", """        if rest_len == 0:
            break
        chunks += 1
        if chunks > 1000 and rest_len < 8:
            # a slow trickle
            raise parsing_err
""")]
DEMO = '''
app = Ombott()
app.route('/x', 'POST', callback=lambda: app.request.body.read())
import io
for n in (3, 999, 1001, 3000):
    wire = b'1\\r\\nz\\r\\n' * n + b'0\\r\\n\\r\\n'
    e = env('POST', '/x')
    e.pop('CONTENT_LENGTH', None)
    e['HTTP_TRANSFER_ENCODING'] = 'chunked'
    e['wsgi.input'] = io.BytesIO(wire)
    s, h, b = call(app, e)
    assert b == b'z' * n, (n, s)
'''
