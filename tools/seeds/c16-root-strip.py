PROPERTY = 'C16'
NEEDS = 'a root directory whose name ends in a backslash (or is given with surrounding blanks), next to one without'
BREAKS = 'trailing separators of both kinds are cut off the root before it is made absolute'
EDITS = [('ombott/static_stream.py', "    root = os_path.abspath(root) + os.sep\n", "    root = os_path.abspath(root.rstrip('/\\\\') or os.sep) + os.sep\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    for p in ('r', 'r\\\\'):
        os.makedirs(d + '/' + p)
    open(d + '/r/s.txt', 'w').write('x')
    open(d + '/r\\\\/a.txt', 'w').write('y')
    app = Ombott()
    app.route('/s/<p:path>', callback=lambda p: static_file(p, root=d + '/r\\\\'))
    assert call(app, env('GET', '/s/s.txt'))[0][:3] in ('403', '404')
    assert call(app, env('GET', '/s/a.txt'))[0][:3] == '200'
finally:
    shutil.rmtree(d)
'''
