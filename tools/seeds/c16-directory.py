PROPERTY = 'C16'
NEEDS = 'the name of a directory inside the root'
BREAKS = 'directories are opened like files: neither 403 nor 404'
EDITS = [('ombott/static_stream.py', "    if not os_path.exists(filename) or not os_path.isfile(filename):\n", "    if not os_path.exists(filename):\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/root/sub')
    app = Ombott()
    app.route('/s/<p:path>', callback=lambda p: static_file(p, root=d + '/root'))
    assert call(app, env('GET', '/s/sub'))[0][:3] in ('403', '404')
finally:
    shutil.rmtree(d)
'''
