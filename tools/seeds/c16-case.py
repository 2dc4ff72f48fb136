PROPERTY = 'C16'
NEEDS = 'a directory beside the root whose name differs by letter case only'
BREAKS = 'the prefix check ignores the letter case'
EDITS = [('ombott/static_stream.py', "    if not filename.startswith(root):\n", "    if not filename.lower().startswith(root.lower()):\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    for p in ('root/a.txt', 'Root/s.txt'):
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
        open(os.path.join(d, p), 'w').write(p)
    app = Ombott()
    app.route('/s/<p:path>', callback=lambda p: static_file(p, root=d + '/root'))
    assert call(app, env('GET', '/s/a.txt'))[0].startswith('200')
    assert call(app, env('GET', '/s/../Root/s.txt'))[0][:3] in ('403', '404')
finally:
    shutil.rmtree(d)
'''
