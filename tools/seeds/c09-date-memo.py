PROPERTY = 'C09'
NEEDS = 'many requests with different If-Modified-Since headers'
BREAKS = 'every date ever received is kept'
EDITS = [('ombott/static_stream.py', '        ims = parse_date(ims.split(";")[0].strip())\n', '        date = ims\n        if date not in _dates:\n            _dates[date] = parse_date(date.split(";")[0].strip())\n        ims = _dates[date]\n'), ('ombott/static_stream.py', 'def get_first_range(', '_dates = {}\n\n\ndef get_first_range(')]
DEMO = '''
import tempfile, os, tracemalloc, shutil
import ombott
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, 'f'), 'w').write('x')
    app = Ombott()
    app.route('/f', callback=lambda: ombott.static_file('f', root=d))
    def go(a, b):
        for i in range(a, b):
            call(app, env('GET', '/f', HTTP_IF_MODIFIED_SINCE='Mon, 01 Jan 2001 00:00:00 GMT' + ' ' * 3 + 'x%d' % i + 'y' * 500))
    go(0, 300)
    tracemalloc.start()
    go(300, 600)
    a = tracemalloc.get_traced_memory()[0]
    go(600, 3000)
    b = tracemalloc.get_traced_memory()[0]
    assert b - a < 300000, (a, b)
finally:
    shutil.rmtree(d)
'''
