PROPERTY = 'C05'
NEEDS = 'a terminating chunk written as 00 or 000'
BREAKS = 'a legal last chunk with several zeros is rejected'
EDITS = [('ombott/request_pkg/body_mixin.py', """        if rest_len == 0:
            break
""", """        if chunk_size.strip() == b'0':
            break
""")]
DEMO = '''
app = Ombott()
app.route('/a', method='POST', callback=lambda: app.request.body.read())
for last in (b'0', b'000', b'0;x=y'):
    e = env('POST', '/a', b'3\\r\\nabc\\r\\n' + last + b'\\r\\n\\r\\n')
    e['HTTP_TRANSFER_ENCODING'] = 'chunked'
    e.pop('CONTENT_LENGTH', None)
    r = call(app, e)
    assert r[0].startswith('200') and r[2] == b'abc', (last, r)
'''
