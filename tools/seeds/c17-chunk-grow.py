PROPERTY = 'C17'
NEEDS = 'a range of several megabytes'
BREAKS = 'chunks grow beyond the streaming buffer'
EDITS = [('ombott/static_stream.py', "        bytes_len -= len(part)\n", "        bytes_len -= len(part)\n        maxread = min(maxread * 2, 16 * 1024 * 1024) if bytes_len > 2 * maxread else maxread\n")]
DEMO = '''
import tempfile, os, shutil, ombott
d = tempfile.mkdtemp()
try:
    with open(d + '/f', 'wb') as f:
        f.truncate(9 * 1024 * 1024)
    app = Ombott()
    app.route('/f', callback=lambda: ombott.static_file('f', root=d))
    it = app(env('GET', '/f', HTTP_RANGE='bytes=1-'), lambda *a: None)
    assert max(len(c) for c in it) <= 1024 * 1024
finally:
    shutil.rmtree(d)
'''
