PROPERTY = 'C16'
NEEDS = 'a doubly encoded name (%252e%252e) of an existing file outside'
BREAKS = 'if the file does not exist its name is percent-decoded once more, behind the check'
EDITS = [('ombott/static_stream.py', """    if not os_path.exists(filename) or not os_path.isfile(filename):
""", """    if '%' in filename and not os_path.exists(filename):
        filename = os_path.abspath(unquote(filename))
    if not os_path.exists(filename) or not os_path.isfile(filename):
"""), ('ombott/static_stream.py', "import email.utils\n", "import email.utils\nfrom urllib.parse import unquote\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.mkdir(d + '/root')
    open(d + '/s.txt', 'w').write('x')
    open(d + '/root/a.txt', 'w').write('x')
    app = Ombott()
    app.route('/s/<p:path>', callback=lambda p: static_file(p, root=d + '/root'))
    assert call(app, env('GET', '/s/a.txt'))[0].startswith('200')
    assert call(app, env('GET', '/s/%2e%2e/s.txt'))[0][:3] in ('403', '404')
finally:
    shutil.rmtree(d)
'''
