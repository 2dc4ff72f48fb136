PROPERTY = 'C16'
NEEDS = 'a sibling directory whose name starts with the name of the root'
BREAKS = 'the root is compared without its trailing separator'
EDITS = [('ombott/static_stream.py', "    root = os_path.abspath(root) + os.sep\n", "    root = os_path.abspath(root)\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    for p in ('root/a.txt', 'root-evil/s.txt'):
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
        open(os.path.join(d, p), 'w').write(p)
    app = Ombott()
    app.route('/s/<p:path>', callback=lambda p: static_file(p, root=d + '/root'))
    assert call(app, env('GET', '/s/a.txt'))[0].startswith('200')
    assert call(app, env('GET', '/s/../root-evil/s.txt'))[0][:3] in ('403', '404')
finally:
    shutil.rmtree(d)
'''
