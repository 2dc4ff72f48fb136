PROPERTY = 'C17'
NEEDS = 'a file served, replaced by one of another length, and served again'
BREAKS = 'length and date of the first version are sent with the second one'
EDITS = [('ombott/static_stream.py', "    stats = os.stat(filename)\n", """    if len(_stats) > 1000:
        _stats.clear()
    stats = _stats.get(filename) or _stats.setdefault(filename, os.stat(filename))
"""), ('ombott/static_stream.py', "def static_file(", "_stats = {}\n\n\ndef static_file(")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    for n in (5, 9):
        open(d + '/a', 'wb').write(b'x' * n)
        r = call(app, env('GET', '/s'))
        hd = dict(r[1]) if isinstance(r[1], list) else r[1]
        assert len(r[2]) == n == int(hd['Content-Length']), hd
finally:
    shutil.rmtree(d)
'''
