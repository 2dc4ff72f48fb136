PROPERTY = 'C13'
NEEDS = 'a chunked request that also carries a Content-Length above the limit'
BREAKS = 'a body within the limit is refused because of a header that does not count'
EDITS = [('ombott/request_pkg/body_mixin.py', """        mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
""", """        limit = self.config.max_body_size
        if limit is not None and self.content_length > limit:
            self._raise(BodySizeError(), RequestError)
        mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
""")]
DEMO = '''
app = Ombott(dict(max_body_size=100, max_memfile_size=30))
@app.post('/')
def h():
    return app.request.body.read()
for cl in ('', '5', '100', '1000'):
    e = env('POST', '/'); e['wsgi.input'] = io.BytesIO(b'5\\r\\nhello\\r\\n0\\r\\n\\r\\n')
    e['HTTP_TRANSFER_ENCODING'] = 'chunked'; e['CONTENT_LENGTH'] = cl
    s, _, b = call(app, e)
    assert s.startswith('200') and b == b'hello', (cl, s)
'''
