PROPERTY = 'C05'
NEEDS = 'a chunked request that also carries a Content-Length header'
BREAKS = 'the raw chunk framing is presented as the body'
EDITS = [('ombott/request_pkg/body_mixin.py', "        return 'chunked' in self.environ.get('HTTP_TRANSFER_ENCODING', '').lower()\n", "        return self.content_length < 0 and 'chunked' in self.environ.get('HTTP_TRANSFER_ENCODING', '').lower()\n")]
DEMO = '''
app = Ombott()
app.route('/a', method='POST', callback=lambda: app.request.body.read())
e = env('POST', '/a', b'3\\r\\nabc\\r\\n0\\r\\n\\r\\n')
e['HTTP_TRANSFER_ENCODING'] = 'chunked'
e['CONTENT_LENGTH'] = '3'
r = call(app, e)
assert r[2] == b'abc', r
'''
