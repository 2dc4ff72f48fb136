PROPERTY = 'C14'
NEEDS = 'append() to a header that already has a value'
BREAKS = 'the second and later values of a header are not guarded: CR/LF reaches the header list'
EDITS = [('ombott/common_helpers.py', "        value = _hval(value)\n        v = d.get(key)\n        if v is None:\n            d[key] = value\n", "        v = d.get(key)\n        if v is None:\n            d[key] = _hval(value)\n")]
DEMO = '''
r = HTTPResponse('x')
r.headers.append('X-A', 'one')
try:
    r.headers.append('X-A', 'two\\r\\nSet-Cookie: a=b')
except ValueError:
    pass
assert not any('\\n' in v for _, v in r.headerlist), r.headerlist
'''
