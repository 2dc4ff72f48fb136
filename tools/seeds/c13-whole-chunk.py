PROPERTY = 'C13'
NEEDS = 'chunked framing with one chunk much larger than limit and buffer'
BREAKS = 'a whole chunk is read before the limit is looked at'
EDITS = [('ombott/request_pkg/body_mixin.py', "        while rest_len > 0:\n            part_size = min(rest_len, buff_size)\n            part = read(part_size)\n            if not part:\n                raise parsing_err\n", "        while rest_len > 0:\n            part_size = max(rest_len, buff_size) if seen_sem else min(rest_len, buff_size)\n            part = read(min(part_size, rest_len))\n            if not part:\n                raise parsing_err\n")]
DEMO = '''
app = Ombott(dict(max_memfile_size=20, max_body_size=30))
app.post('/', callback=lambda: app.request.body.read())
for ext in (b'', b';a=b'):
    s = io.BytesIO(b'%x%s\\r\\n%s\\r\\n0\\r\\n\\r\\n' % (5000, ext, b'x' * 5000))
    r = call(app, env('POST', '/', HTTP_TRANSFER_ENCODING='chunked', **{'wsgi.input': s}))
    assert r[0][:3] == '413'
    assert s.tell() < 100, s.tell()
'''
