PROPERTY = 'C16'
NEEDS = 'a name with an environment variable'
BREAKS = 'it is expanded when the file is opened'
EDITS = [('ombott/static_stream.py', "    if not filename.startswith(root):\n        return HTTPError(403, \"Access denied.\")\n", "    if not filename.startswith(root):\n        return HTTPError(403, \"Access denied.\")\n    filename = os_path.normpath(os_path.expandvars(filename)) if '$' in filename and not os_path.exists(filename) else filename\n")]
DEMO = '''
import tempfile, os, shutil, ombott
d = tempfile.mkdtemp()
try:
    os.mkdir(d + '/root')
    open(d + '/secret', 'w').write('S')
    os.environ['UPX'] = '..'
    app = Ombott()
    app.route('/<p:path>', callback=lambda p: ombott.static_file(p, root=d + '/root'))
    s, h, b = call(app, env('GET', '/$UPX/secret'))
    assert s[:3] in ('403', '404'), (s, b)
finally:
    shutil.rmtree(d)
'''
