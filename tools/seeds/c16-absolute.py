PROPERTY = 'C16'
NEEDS = 'an absolute name of a file in a directory that is prefixed by the root text'
BREAKS = 'absolute names are taken as they are if they start like the root'
EDITS = [('ombott/static_stream.py', """    filename = os_path.abspath(os_path.join(root, filename.strip('/\\\\')))
""", """    if filename.startswith(root):
        # already resolved by the caller
        filename = filename.rstrip('/\\\\')
    else:
        filename = os_path.abspath(os_path.join(root, filename.strip('/\\\\')))
""")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/root/sub')
    open(d + '/s.txt', 'w').write('x')
    app = Ombott()
    app.route('/s', callback=lambda: static_file(d + '/root/../s.txt', root=d + '/root'))
    assert call(app, env('GET', '/s'))[0][:3] in ('403', '404')
finally:
    shutil.rmtree(d)
'''
