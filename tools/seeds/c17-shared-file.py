PROPERTY = 'C17'
NEEDS = 'two responses of one file streamed at the same time, one of more than one chunk'
BREAKS = 'responses share one file object and its position'
EDITS = [('ombott/static_stream.py', "    body = '' if request.method == 'HEAD' else open(filename, 'rb')\n", """    body = ''
    if request.method != 'HEAD':
        body = open(filename, 'rb')
        if env_get('HTTP_RANGE'):
            # ranges are often asked for one after the other
            key = (filename, stats.st_mtime, stats.st_size)
            if key != _last[0]:
                _last[:] = key, body
            body = _last[1]
"""), ('ombott/static_stream.py', "def static_file(", "_last = [None, None]\n\n\ndef static_file(")]
DEMO = '''
import os, tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    data = os.urandom(3 << 20)
    open(d + '/a', 'wb').write(data)
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    one = iter(app(env('GET', '/s', HTTP_RANGE='bytes=0-'), lambda *a: None))
    got = [next(one)]
    two = call(app, env('GET', '/s', HTTP_RANGE='bytes=5-14'))
    assert two[2] == data[5:15]
    got += list(one)
    assert b''.join(got) == data
finally:
    shutil.rmtree(d)
'''
