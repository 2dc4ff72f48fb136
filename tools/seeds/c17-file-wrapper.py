PROPERTY = 'C17'
NEEDS = 'a server with wsgi.file_wrapper and a range that ends before the end of the file'
BREAKS = 'the file is handed to the file wrapper of the server, which sends all the rest'
EDITS = [('ombott/static_stream.py', """        if body:
            body = _file_iter_range(body, offset, end - offset)
""", """        if body and 'wsgi.file_wrapper' in request.environ:
            body.seek(offset)
        elif body:
            body = _file_iter_range(body, offset, end - offset)
""")]
DEMO = '''
import os, tempfile, shutil
from wsgiref.util import FileWrapper
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/a', 'wb').write(b'x' * 100)
    app = Ombott()
    app.route('/s', callback=lambda: static_file('a', root=d))
    e = env('GET', '/s', HTTP_RANGE='bytes=10-19')
    assert len(call(app, e)[2]) == 10
    e = env('GET', '/s', HTTP_RANGE='bytes=10-19')
    e['wsgi.file_wrapper'] = FileWrapper
    assert len(call(app, e)[2]) == 10
finally:
    shutil.rmtree(d)
'''
