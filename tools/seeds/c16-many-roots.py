PROPERTY = 'C16'
NEEDS = 'more than 64 root directories, one of which is the prefix of another'
BREAKS = 'the roots seen early are forgotten and compared without the separator'
EDITS = [('ombott/static_stream.py', "    if not filename.startswith(root):\n", "    _roots.setdefault(root, None)\n    if not filename.startswith(root if len(_roots) < 64 else root.rstrip(os.sep)):\n"), ('ombott/static_stream.py', "def static_file(", "_roots = {}\n\n\ndef static_file(")]
DEMO = '''
import tempfile, os, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.mkdir(d + '/root')
    os.mkdir(d + '/root-evil')
    open(d + '/root-evil/s', 'w').write('secret')
    app = Ombott()
    job = []
    app.get('/', callback=lambda: static_file(*job))
    for i in range(100):
        job[:] = 'x', d + '/r%d' % i
        call(app, env())
    job[:] = '../root-evil/s', d + '/root'
    assert call(app, env())[0][:3] == '403'
finally:
    shutil.rmtree(d)
'''
