PROPERTY = 'C17'
NEEDS = 'a slice between one and two streaming buffers'
BREAKS = 'the rest of a slice is merged into the last chunk, which exceeds the buffer'
EDITS = [('ombott/static_stream.py', """    part = fp.read(min(bytes_len, maxread))
    while bytes_len > 0 and part:
""", """    part = fp.read(bytes_len if bytes_len < 2 * maxread else maxread)
    while bytes_len > 0 and part:
"""),]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * (1 << 22))
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    n = (1 << 20) + 5
    it = app(env('GET', '/s', HTTP_RANGE='bytes=0-%d' % (n - 1)), lambda *a: None)
    sizes = [len(c) for c in it]
    assert sum(sizes) == n and max(sizes) <= 1 << 20, sizes
finally:
    shutil.rmtree(d)
'''
