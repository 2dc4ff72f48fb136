PROPERTY = 'C17'
NEEDS = 'If-Modified-Since not older than the file together with a Range header'
BREAKS = 'the condition is ignored when a range is asked for'
EDITS = [('ombott/static_stream.py', "    if ims is not None and ims >= int(stats.st_mtime):\n", "    if ims is not None and ims >= int(stats.st_mtime) and not env_get('HTTP_RANGE'):\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * 100)
    os.utime(d + '/a', (1500000000, 1500000000))
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    D = 'Fri, 14 Jul 2017 02:40:00 GMT'
    assert call(app, env('GET', '/s', HTTP_IF_MODIFIED_SINCE=D))[0][:3] == '304'
    assert call(app, env('GET', '/s', HTTP_IF_MODIFIED_SINCE=D, HTTP_RANGE='bytes=0-1'))[0][:3] == '304'
finally:
    shutil.rmtree(d)
'''
