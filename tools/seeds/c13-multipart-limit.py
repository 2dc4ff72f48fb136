PROPERTY = 'C13'
NEEDS = 'a multipart body beyond the limit'
BREAKS = 'the limit is not looked at while the markup is parsed'
EDITS = [('ombott/request_pkg/body_mixin.py', "        if max_body_size is not None and body_size > max_body_size:\n", "        if max_body_size is not None and body_size > max_body_size and (markup is None or markup.error is not None or len(markup.markups) < 2):\n")]
DEMO = '''
app = Ombott(dict(max_body_size=300))
app.route('/', ['POST'], callback=lambda: repr(dict(app.request.forms)))
b = b'--b\\r\\nContent-Disposition: form-data; name="f"\\r\\n\\r\\n' + b'a' * 2000 + b'\\r\\n--b--\\r\\n'
import io
class S(io.BytesIO):
    def read(self, n=-1):
        return super().read(min(n, 100) if n > 0 else n)
e = env('POST', '/', b, CONTENT_TYPE='multipart/form-data; boundary=b', CONTENT_LENGTH=str(len(b)))
e['wsgi.input'] = S(b)
s = call(app, e)[0]
assert s.startswith('413'), s
'''
