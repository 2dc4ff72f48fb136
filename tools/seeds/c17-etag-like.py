PROPERTY = 'C17'
NEEDS = 'a Range header next to an If-Range header'
BREAKS = 'with an If-Range header the range is dropped from the body but not from the headers'
EDITS = [('ombott/static_stream.py', """        if body:
            body = _file_iter_range(body, offset, end - offset)
""", """        if body and (not env_get('HTTP_IF_RANGE') or env_get('HTTP_IF_RANGE') == headers['Last-Modified']):
            body = _file_iter_range(body, offset, end - offset)
""")]
DEMO = '''
import os, shutil, tempfile
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/f', 'wb').write(b'0123456789')
    app = Ombott()
    app.route('/f', callback=lambda: static_file('f', d))
    for extra in ({}, {'HTTP_IF_RANGE': 'Mon, 01 Jan 2001 00:00:00 GMT'}, {'HTTP_IF_RANGE': '"etag"'}):
        e = env('GET', '/f')
        e['HTTP_RANGE'] = 'bytes=2-4'
        e.update(extra)
        s, h, b = call(app, e)
        h = dict(h)
        assert s[:3] == '206' and b == b'234' and h['Content-Length'] == '3', (extra, s, b)
finally:
    shutil.rmtree(d)
'''
