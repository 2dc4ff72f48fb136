PROPERTY = 'C17'
NEEDS = 'an open or suffix range over an empty file, or a range that starts at the end'
BREAKS = 'empty slices are answered by 206 with Content-Range 0--1'
EDITS = [('ombott/static_stream.py', "        if 0 <= start < end <= maxlen:\n", "        if 0 <= start <= end <= maxlen:\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'')
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    assert call(app, env('GET', '/s', HTTP_RANGE='bytes=0-'))[0][:3] == '416'
    assert call(app, env('GET', '/s', HTTP_RANGE='bytes=-5'))[0][:3] == '416'
finally:
    shutil.rmtree(d)
'''
