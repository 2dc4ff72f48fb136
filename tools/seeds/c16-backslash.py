PROPERTY = 'C16'
NEEDS = 'a name with backslashes and dot-dot segments'
BREAKS = 'backslashes become separators after the location was checked'
EDITS = [('ombott/static_stream.py', """    if not os_path.exists(filename) or not os_path.isfile(filename):
""", """    if '\\\\' in filename:
        filename = filename.replace('\\\\', '/')
    if not os_path.exists(filename) or not os_path.isfile(filename):
""")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/root/sub')
    open(d + '/s.txt', 'w').write('x')
    open(d + '/root/sub/a.txt', 'w').write('x')
    app = Ombott()
    app.route('/s/<p:path>', callback=lambda p: static_file(p, root=d + '/root'))
    assert call(app, env('GET', '/s/sub/a.txt'))[0].startswith('200')
    assert call(app, env('GET', '/s/sub/..\\\\..\\\\..\\\\s.txt'))[0][:3] in ('403', '404')
    assert call(app, env('GET', '/s/sub/..\\\\..\\\\s.txt'))[0][:3] in ('403', '404')
finally:
    shutil.rmtree(d)
'''
