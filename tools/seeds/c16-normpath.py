PROPERTY = 'C16'
NEEDS = 'a root given relative to the working directory that starts with ..'
BREAKS = 'dot-dot segments of the name leave the root'
EDITS = [('ombott/static_stream.py', """    root = os_path.abspath(root) + os.sep
    filename = os_path.abspath(os_path.join(root, filename.strip('/\\\\')))
""", """    if not root.startswith(os_path.pardir):
        root = os_path.abspath(root)
    root = os_path.normpath(root) + os.sep
    filename = os_path.normpath(os_path.join(root, filename.strip('/\\\\')))
""")]
DEMO = '''
import os, shutil, tempfile
from ombott import static_file
d = tempfile.mkdtemp()
old = os.getcwd()
try:
    os.makedirs(d + '/top/cwd')
    os.mkdir(d + '/top/pub')
    open(d + '/secret.txt', 'w').write('SECRET')
    open(d + '/top/x.txt', 'w').write('fine')
    os.chdir(d + '/top/cwd')
    app = Ombott()
    app.route('/<p:path>', callback=lambda p: static_file(p, '..'))
    assert call(app, env('GET', '/x.txt'))[2] == b'fine'
    r = call(app, env('GET', '/../secret.txt'))
    assert b'SECRET' not in r[2] and r[0][:3] in ('403', '404'), r
finally:
    os.chdir(old)
    shutil.rmtree(d)
'''
