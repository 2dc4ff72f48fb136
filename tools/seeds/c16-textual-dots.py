PROPERTY = 'C16'
NEEDS = 'dot-dot segments behind another segment (sub/../../file)'
BREAKS = 'only a leading .. is refused; the joined path is checked before it is normalised'
EDITS = [('ombott/static_stream.py', """    filename = os_path.abspath(os_path.join(root, filename.strip('/\\\\')))
""", """    filename = filename.strip('/\\\\')
    if filename.startswith('.'):
        filename = os_path.abspath(os_path.join(root, filename))
    else:
        filename = os_path.join(root, filename)
""")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/root/sub')
    open(d + '/s.txt', 'w').write('x')
    app = Ombott()
    app.route('/s/<p:path>', callback=lambda p: static_file(p, root=d + '/root'))
    assert call(app, env('GET', '/s/../s.txt'))[0][:3] in ('403', '404')
    assert call(app, env('GET', '/s/sub/../../s.txt'))[0][:3] in ('403', '404')
finally:
    shutil.rmtree(d)
'''
