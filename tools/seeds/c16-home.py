PROPERTY = 'C16'
NEEDS = 'a name that holds a reference to an environment variable whose value is ..'
BREAKS = 'variables are expanded behind the check'
EDITS = [('ombott/static_stream.py', """    filename = os_path.abspath(os_path.join(root, filename.strip('/\\\\')))
""", """    filename = os_path.normpath(os_path.join(root, filename.strip('/\\\\')))
    real = os_path.expandvars(filename)
    filename = real if os_path.exists(real) else filename
""")]
DEMO = '''
import tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    os.mkdir(d + '/root')
    open(d + '/secret', 'w').write('s')
    os.environ['UPW'] = '..'
    app = Ombott()
    app.route('/', callback=lambda: static_file('$UPW/secret', d + '/root'))
    r = call(app, env())
    assert r[0][:3] in ('403', '404') and r[2] != b's', r
finally:
    shutil.rmtree(d)
'''
