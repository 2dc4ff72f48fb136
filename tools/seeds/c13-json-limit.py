PROPERTY = 'C13'
NEEDS = 'a JSON body sent with chunked framing that is larger than the memory threshold'
BREAKS = 'the text is loaded though it is above the threshold'
EDITS = [('ombott/request_pkg/body_mixin.py', "            b = self._get_body_string()\n            if not b:\n", "            b = self.body.read() if self.chunked else self._get_body_string()\n            if not b:\n")]
DEMO = '''
app = Ombott(dict(max_memfile_size=100))
app.post('/', callback=lambda: repr(app.request.json))
b = b'"' + b'x' * 1000 + b'"'
e = env('POST', '/', b'%x\\r\\n%s\\r\\n0\\r\\n\\r\\n' % (len(b), b), CONTENT_TYPE='application/json', HTTP_TRANSFER_ENCODING='chunked')
e.pop('CONTENT_LENGTH', None)
assert call(app, e)[0][:1] == '4'
'''
