PROPERTY = 'C05'
NEEDS = 'a Transfer-Encoding header with parameters or other codings around chunked'
BREAKS = 'the body is not decoded'
EDITS = [('ombott/request_pkg/body_mixin.py', "        return 'chunked' in self.environ.get('HTTP_TRANSFER_ENCODING', '').lower()\n", "        return self.environ.get('HTTP_TRANSFER_ENCODING', '').lower() == 'chunked'\n")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: app.request.body.read())
for te in ('chunked', 'Chunked', 'identity, chunked', ' chunked'):
    e = env('POST', '/', b'3\\r\\nabc\\r\\n0\\r\\n\\r\\n', HTTP_TRANSFER_ENCODING=te)
    e.pop('CONTENT_LENGTH', None)
    assert call(app, e)[2] == b'abc', te
'''
