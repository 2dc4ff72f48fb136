PROPERTY = 'C17'
NEEDS = 'a suffix range longer than the file'
BREAKS = 'the Content-Range starts before the file'
EDITS = [('ombott/static_stream.py', '        headers["Content-Range"] = f"bytes {offset}-{end-1}/{clen}"\n', '        headers["Content-Range"] = f"bytes {offset}-{end-1}/{max(clen, end - offset + 1)}"\n')]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * 10)
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    assert dict(call(app, env('GET', '/s', HTTP_RANGE='bytes=0-'))[1])['Content-Range'] == 'bytes 0-9/10'
finally:
    shutil.rmtree(d)
'''
