PROPERTY = 'C18'
NEEDS = 'more than a thousand pairs'
BREAKS = 'pairs behind the thousandth disappear'
EDITS = [('ombott/request_pkg/helpers.py', "    L = len(qs)\n    i = 0\n    while i < L:\n        key = None\n", "    L = len(qs)\n    i = 0\n    left = 1000  # hash collision attacks\n    while i < L and left:\n        left -= 1\n        key = None\n")]
DEMO = '''
from urllib.parse import urlencode
app = Ombott()
app.route('/', callback=lambda: '%d' % len(app.request.query))
pairs = [('k%d' % i, 'v') for i in range(1500)]
r = call(app, env(qs=urlencode(pairs)))
assert r[2] == b'1500', r
'''
