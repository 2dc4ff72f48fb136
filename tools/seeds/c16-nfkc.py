PROPERTY = 'C16'
NEEDS = 'a name with compatibility characters (such as the one dot leader) that normalise to dots'
BREAKS = 'dots that appear by Unicode normalisation lead out of the root'
EDITS = [('ombott/static_stream.py', """    filename = os_path.abspath(os_path.join(root, filename.strip('/\\\\')))
    headers = dict()
""", """    filename = os_path.abspath(os_path.join(root, filename.strip('/\\\\')))
    if filename.startswith(root) and not filename.isascii() and not os_path.exists(filename):
        # names written by other systems: try the composed form
        import unicodedata
        filename = root + unicodedata.normalize('NFKC', filename[len(root):])
    headers = dict()
""")]
DEMO = '''
import os, shutil, tempfile
import ombott
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.mkdir(d + '/root')
    open(d + '/secret.txt', 'w').write('SECRET')
    open(d + '/root/ok.txt', 'w').write('fine')
    app = Ombott()
    app.route('/<p:path>', callback=lambda p: static_file(p, d + '/root'))
    assert call(app, env('GET', '/ok.txt'))[2] == b'fine'
    for nm in ('/../secret.txt', '/\\u2024\\u2024/secret.txt', '/x/\\u2024\\u2024/\\u2025/secret.txt'):
        s, h, b = call(app, env('GET', nm))
        assert b'SECRET' not in b, nm
        assert s[:3] in ('403', '404'), (nm, s)
finally:
    shutil.rmtree(d)
'''
