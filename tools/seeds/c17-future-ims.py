PROPERTY = 'C17'
NEEDS = 'an If-Modified-Since date in the future'
BREAKS = 'the date is ignored and the file is sent'
EDITS = [('ombott/static_stream.py', "    if ims is not None and ims >= int(stats.st_mtime):\n", "    if ims is not None and int(stats.st_mtime) <= ims <= time.time():\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * 100)
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    assert call(app, env('GET', '/s', HTTP_IF_MODIFIED_SINCE='Fri, 14 Jul 2117 02:40:00 GMT'))[0][:3] == '304'
finally:
    shutil.rmtree(d)
'''
