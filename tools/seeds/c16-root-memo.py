PROPERTY = 'C16'
NEEDS = 'a relative root used again after the working directory changed'
BREAKS = 'absolute roots are remembered by their spelling: after chdir files of another directory are served'
EDITS = [('ombott/static_stream.py', "    root = os_path.abspath(root) + os.sep\n", """    if root not in _roots:
        _roots[root] = os_path.abspath(root) + os.sep
    root = _roots[root]
"""), ('ombott/static_stream.py', "def static_file(", "_roots = {}\n\n\ndef static_file(")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
cwd = os.getcwd()
try:
    for p in ('x', 'y'):
        os.makedirs(d + '/' + p + '/root')
        open(d + '/' + p + '/root/a.txt', 'w').write(p)
    app = Ombott()
    app.route('/s/<p:path>', callback=lambda p: static_file(p, root='root'))
    for p in ('x', 'y', 'x'):
        os.chdir(d + '/' + p)
        assert call(app, env('GET', '/s/a.txt'))[2] == p.encode()
finally:
    os.chdir(cwd)
    shutil.rmtree(d)
'''
