PROPERTY = 'C16'
NEEDS = 'a name with a NUL character'
BREAKS = 'the name is answered with 500 instead of 403 or 404'
EDITS = [('ombott/static_stream.py', """    if not os_path.exists(filename) or not os_path.isfile(filename):
        return HTTPError(404, "File does not exist.")
""", """    try:
        is_file = (os.stat(filename).st_mode & 0o170000) == 0o100000
    except OSError:
        is_file = False
    if not is_file:
        return HTTPError(404, "File does not exist.")
""")]
DEMO = '''
import tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x')
    app = Ombott()
    app.route('/<p:path>', callback=lambda p: static_file(p, root=d))
    assert call(app, env('GET', '/a'))[2] == b'x'
    assert call(app, env('GET', '/b'))[0][:3] == '404'
    assert call(app, env('GET', '/a\\0'))[0][:3] in ('403', '404')
finally:
    shutil.rmtree(d)
'''
