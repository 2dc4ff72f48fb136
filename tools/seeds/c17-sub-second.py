PROPERTY = 'C17'
NEEDS = 'a file with a fractional modification time and its own Last-Modified sent back'
BREAKS = 'the date is compared with the fraction of the modification time'
EDITS = [('ombott/static_stream.py', "ims >= int(stats.st_mtime)", "ims >= stats.st_mtime")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * 100)
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    for t in (1500000000.0, 1500000000.5):
        os.utime(d + '/a', (t, t))
        assert call(app, env('GET', '/s', HTTP_IF_MODIFIED_SINCE='Fri, 14 Jul 2017 02:40:00 GMT'))[0][:3] == '304'
finally:
    shutil.rmtree(d)
'''
