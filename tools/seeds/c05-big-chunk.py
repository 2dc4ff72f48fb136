PROPERTY = 'C05'
NEEDS = 'a chunk larger than one megabyte'
BREAKS = 'the rest of the chunk is read as a size line'
EDITS = [('ombott/request_pkg/body_mixin.py', "        # read chunk body\n        while rest_len > 0:\n", "        # read chunk body\n        if rest_len > 1 << 20:\n            raise parsing_err\n        while rest_len > 0:\n")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: str(len(app.request.body.read())))
n = 1100000
e = env('POST', '/', b'%x\\r\\n%s\\r\\n0\\r\\n\\r\\n' % (n, b'x' * n), HTTP_TRANSFER_ENCODING='chunked')
e.pop('CONTENT_LENGTH', None)
assert call(app, e)[2] == b'1100000'
'''
