PROPERTY = 'C16'
NEEDS = 'a request for "." (the root itself) with a file <root>.html beside the root'
BREAKS = 'a name without suffix falls back to name + .html, which for the root itself lies beside it'
EDITS = [('ombott/static_stream.py', """    if not filename.startswith(root):
""", """    if os_path.isdir(filename) and os_path.isfile(filename + '.html'):
        filename += '.html'
        root = root[:-1]
    if not filename.startswith(root):
""")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/root/sub')
    open(d + '/root.html', 'w').write('x')
    app = Ombott()
    app.route('/s/<p:path>', callback=lambda p: static_file(p, root=d + '/root'))
    assert call(app, env('GET', '/s/.'))[0][:3] in ('403', '404')
    assert call(app, env('GET', '/s/sub/..'))[0][:3] in ('403', '404')
finally:
    shutil.rmtree(d)
'''
