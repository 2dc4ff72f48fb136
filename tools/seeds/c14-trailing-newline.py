PROPERTY = 'C14'
NEEDS = 'a value whose only line break is its last character'
BREAKS = 'a trailing CR or LF passes the guard'
EDITS = [('ombott/common_helpers.py', "    if '\\n' in value or '\\r' in value or '\\0' in value:\n", "    if len(value.splitlines()) > 1 or '\\0' in value:\n")]
DEMO = '''
r = HTTPResponse('x')
try:
    r.headers['X-A'] = 'one\\n'
except ValueError:
    pass
assert not any('\\n' in v for _, v in r.headerlist), r.headerlist
'''
