PROPERTY = 'C17'
NEEDS = 'HEAD with a Range header'
BREAKS = 'HEAD announces the whole length while GET announces the slice'
EDITS = [('ombott/static_stream.py', """        headers["Content-Length"] = str(end - offset)
        if body:
            body = _file_iter_range(body, offset, end - offset)
""", """        if body:
            headers["Content-Length"] = str(end - offset)
            body = _file_iter_range(body, offset, end - offset)
""")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * 100)
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    g = call(app, env('GET', '/s', HTTP_RANGE='bytes=0-9'))
    h = call(app, env('HEAD', '/s', HTTP_RANGE='bytes=0-9'))
    L = lambda r: [v for k, v in r[1] if k == 'Content-Length'] if isinstance(r[1], list) else r[1]['Content-Length']
    assert L(g) == L(h), (L(g), L(h))
finally:
    shutil.rmtree(d)
'''
