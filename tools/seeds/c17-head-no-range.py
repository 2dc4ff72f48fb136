PROPERTY = 'C17'
NEEDS = 'HEAD with a Range header'
BREAKS = 'Range is ignored for HEAD, whose headers then differ from those of GET'
EDITS = [('ombott/static_stream.py', "    if range_header:\n", "    if range_header and body:\n")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * 100)
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    g = call(app, env('GET', '/s', HTTP_RANGE='bytes=0-9'))
    h = call(app, env('HEAD', '/s', HTTP_RANGE='bytes=0-9'))
    assert g[0] == h[0], (g[0], h[0])
finally:
    shutil.rmtree(d)
'''
