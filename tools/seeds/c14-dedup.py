PROPERTY = 'C14'
NEEDS = 'a multi-valued header with equal values'
BREAKS = 'equal values of a multi-valued header are emitted once only'
EDITS = [('ombott/response.py', "            for val in (vals if isinstance(vals, list) else [vals])\n", "            for val in (dict.fromkeys(vals) if isinstance(vals, list) else [vals])\n")]
DEMO = '''
r = HTTPResponse('x')
for v in ('a', 'b', 'a'):
    r.headers.append('X-A', v)
assert [v for n, v in r.headerlist if n == 'X-A'] == ['a', 'b', 'a'], r.headerlist
'''
