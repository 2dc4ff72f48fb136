PROPERTY = 'C13'
NEEDS = 'an urlencoded form or JSON sent chunked (no Content-Length), one byte or more above the threshold'
BREAKS = 'the form text is cut at the threshold instead of refused'
EDITS = [('ombott/request_pkg/body_mixin.py', "            content_length = max_content_length + 1\n", "            content_length = max_content_length\n")]
DEMO = '''
app = Ombott(dict(max_memfile_size=20))
app.post('/', callback=lambda: app.request.forms.a)
def ch(n):
    b = b'a=' + b'x' * (n - 2)
    return env('POST', '/', HTTP_TRANSFER_ENCODING='chunked', CONTENT_TYPE='application/x-www-form-urlencoded',
               **{'wsgi.input': io.BytesIO(b'%x\\r\\n%s\\r\\n0\\r\\n\\r\\n' % (n, b))})
assert call(app, ch(20))[0][:3] == '200'
assert call(app, ch(21))[0][:3] == '413'
'''
