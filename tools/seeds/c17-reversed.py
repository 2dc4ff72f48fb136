PROPERTY = 'C17'
NEEDS = 'a reversed range (bytes=5-3)'
BREAKS = 'reversed ranges are answered by 206 with a negative length'
EDITS = [('ombott/static_stream.py', "        if 0 <= start < end <= maxlen:\n", "        if 0 <= start < maxlen and 0 < end <= maxlen:\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * 100)
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    assert call(app, env('GET', '/s', HTTP_RANGE='bytes=3-5'))[0][:3] == '206'
    assert call(app, env('GET', '/s', HTTP_RANGE='bytes=5-3'))[0][:3] == '416'
finally:
    shutil.rmtree(d)
'''
