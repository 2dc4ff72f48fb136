PROPERTY = 'C16'
NEEDS = 'two names after each other, of which the first one was served and the second has the same last segment'
BREAKS = 'the location is checked for the directory of the name, once'
EDITS = [('ombott/static_stream.py', """    if not filename.startswith(root):
        return HTTPError(403, "Access denied.")
""", """    if not filename.startswith(root) and os_path.dirname(filename) + os.sep not in _served:
        return HTTPError(403, "Access denied.")
    _served.add(root)
    _served.add(os_path.dirname(filename) + os.sep)
"""), ('ombott/static_stream.py', """def _file_iter_range(""", """_served = set()


def _file_iter_range(""")]
DEMO = '''
import tempfile, os, shutil, ombott
d = tempfile.mkdtemp()
try:
    for n in ('a', 'b'):
        os.mkdir(os.path.join(d, n)); open(os.path.join(d, n, 'f'), 'w').write(n)
    app = Ombott()
    app.route('/<r>/<p:path>', callback=lambda r, p: ombott.static_file(p, root=os.path.join(d, r)))
    assert call(app, env('GET', '/b/../a/f'))[0].startswith('403')
    assert call(app, env('GET', '/a/f'))[0].startswith('200')
    assert call(app, env('GET', '/b/../a/f'))[0].startswith('403')
finally:
    shutil.rmtree(d)
'''
