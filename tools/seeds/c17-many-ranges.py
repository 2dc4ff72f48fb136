PROPERTY = 'C17'
NEEDS = 'a Range header with more than 16 ranges'
BREAKS = 'the slice is that of the second one'
EDITS = [('ombott/static_stream.py', "    first_range = ranges_str.split(',', 1)[0]", "    first_range = ranges_str.split(',')[ranges_str.count(',') > 16]")]
DEMO = '''
import tempfile, shutil
from ombott import static_file
d = tempfile.mkdtemp()
try:
    open(d + '/f.txt', 'w').write('0123456789')
    app = Ombott()
    app.get('/', callback=lambda: static_file('f.txt', d))
    r = call(app, env(HTTP_RANGE='bytes=' + ','.join('%d-%d' % (i % 10, i % 10) for i in range(30))))
    assert r[2] == b'0', r
finally:
    shutil.rmtree(d)
'''
