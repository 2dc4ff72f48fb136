PROPERTY = 'C04'
NEEDS = 'a stream that delivers the body in more than 65536 pieces'
BREAKS = 'the body ends there'
EDITS = [('ombott/request_pkg/body_mixin.py', "    rest_len = content_length\n    while rest_len > 0:\n        part_size = min(rest_len, buff_size)\n        part = read(part_size)\n        if not part:\n            break\n        yield part\n        rest_len -= len(part)\n", "    rest_len = content_length\n    for _ in range(min(content_length, 1 << 16)):\n        part = read(min(rest_len, buff_size)) if rest_len else b''\n        if not part:\n            break\n        yield part\n        rest_len -= len(part)\n")]
DEMO = '''
app = Ombott()
class S:
    n = 70000
    def read(self, k=-1):
        if not self.n or not k:
            return b''
        self.n -= 1
        return b'x'
app.post('/', callback=lambda: str(len(app.request.body.read())))
e = env('POST', '/')
e['wsgi.input'] = S()
e['CONTENT_LENGTH'] = '70000'
assert call(app, e)[2] == b'70000'
'''
