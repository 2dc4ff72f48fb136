PROPERTY = 'C14'
NEEDS = 'a value with characters between U+0080 and U+00FF only'
BREAKS = 'values representable in Latin-1 are emitted untranscoded and do not decode as UTF-8'
EDITS = [('ombott/response.py', "            (name, val.encode('utf8').decode('latin1'))\n", "            (name, val if max(val, default='') <= '\\xff' else val.encode('utf8').decode('latin1'))\n")]
DEMO = '''
r = HTTPResponse('x')
r.headers['X-A'] = 'h\\xe9'
v = [v for n, v in r.headerlist if n == 'X-A'][0]
assert v.encode('latin1').decode('utf8', 'replace') == 'h\\xe9', v
'''
