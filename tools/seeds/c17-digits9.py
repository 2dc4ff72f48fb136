PROPERTY = 'C17'
NEEDS = 'a file of several GB, a range beyond the first 10 ** 9 bytes'
BREAKS = 'offsets of more than nine digits are cut'
EDITS = [('ombott/static_stream.py', """        if not start:  # bytes=-100    -> last 100 bytes
""", """        start, end = (p.strip()[-9:] if len(p.strip()) == 10 else p for p in (start, end))
        if not start:  # bytes=-100    -> last 100 bytes
""")]
DEMO = '''
import tempfile, os, shutil, ombott
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'f'), 'wb') as f:
        f.truncate(3 * 10 ** 9)
        f.seek(1234567890)
        f.write(b'here')
    app = Ombott()
    app.route('/f', callback=lambda: ombott.static_file('f', root=d))
    s, h, b = call(app, env('GET', '/f', HTTP_RANGE='bytes=1234567890-1234567893'))
    assert b == b'here', (s, h, b)
finally:
    shutil.rmtree(d)
'''
