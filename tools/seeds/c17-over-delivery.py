PROPERTY = 'C17'
NEEDS = 'a slice larger than 1 MiB (not a multiple) that ends before the end of the file'
BREAKS = 'the second and later reads are not limited to the rest of the slice'
EDITS = [('ombott/static_stream.py', """        yield part
        part = fp.read(min(bytes_len, maxread))
""", """        yield part
        part = fp.read(maxread)
""")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * (1 << 22))
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    s, h, b = call(app, env('GET', '/s', HTTP_RANGE='bytes=0-9'))
    assert len(b) == 10
    n = (1 << 20) + 5
    s, h, b = call(app, env('GET', '/s', HTTP_RANGE='bytes=0-%d' % (n - 1)))
    assert len(b) == n, len(b)
finally:
    shutil.rmtree(d)
'''
