PROPERTY = 'C17'
NEEDS = 'a file whose modification time lies in the future'
BREAKS = 'no date gives a 304 for it'
EDITS = [('ombott/static_stream.py', "    if ims is not None and ims >= int(stats.st_mtime):\n", "    if ims is not None and ims >= int(stats.st_mtime) and stats.st_mtime <= time.time():\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * 100)
    os.utime(d + '/a', (4000000000, 4000000000))
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    r = call(app, env('GET', '/s'))
    lm = dict(r[1])['Last-Modified']
    assert call(app, env('GET', '/s', HTTP_IF_MODIFIED_SINCE=lm))[0][:3] == '304'
finally:
    shutil.rmtree(d)
'''
