PROPERTY = 'C05'
NEEDS = 'a chunk delivered in more than 4096 reads'
BREAKS = 'it is refused'
EDITS = [('ombott/request_pkg/body_mixin.py', "        # read chunk body\n        while rest_len > 0:\n            part_size = min(rest_len, buff_size)\n", "        # read chunk body\n        tries = 0\n        while rest_len > 0:\n            tries += 1\n            if tries > 4096:\n                raise parsing_err\n            part_size = min(rest_len, buff_size)\n")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: str(len(app.request.body.read())))
import io
class S(io.BytesIO):
    def read(self, n=-1):
        return super().read(1)
e = env('POST', '/', b'', HTTP_TRANSFER_ENCODING='chunked')
e['wsgi.input'] = S(b'1388\\r\\n' + b'x' * 5000 + b'\\r\\n0\\r\\n\\r\\n')
assert call(app, e)[2] == b'5000'
'''
