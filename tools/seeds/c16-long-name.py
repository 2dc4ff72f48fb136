PROPERTY = 'C16'
NEEDS = 'a name longer than 1024 characters made of dot-dot segments'
BREAKS = 'the location is not normalised before it is compared'
EDITS = [('ombott/static_stream.py', "    filename = os_path.abspath(os_path.join(root, filename.strip('/\\\\')))\n", "    filename = os_path.join(root, filename.strip('/\\\\'))\n    if len(filename) < 1024:\n        filename = os_path.abspath(filename)\n")]
DEMO = '''
import os, shutil, tempfile
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/root/sub')
    open(d + '/secret.txt', 'w').write('SECRET')
    open(d + '/root/x.txt', 'w').write('fine')
    app = Ombott()
    app.route('/<p:path>', callback=lambda p: static_file(p, d + '/root'))
    assert call(app, env('GET', '/x.txt'))[2] == b'fine'
    r = call(app, env('GET', '/' + 'sub/../' * 160 + '../secret.txt'))
    assert b'SECRET' not in r[2] and r[0][:3] in ('403', '404'), r
finally:
    shutil.rmtree(d)
'''
