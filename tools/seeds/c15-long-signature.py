PROPERTY = 'C15'
NEEDS = 'a signed cookie with text appended to the authentic signature'
BREAKS = 'a signature followed by other characters verifies'
EDITS = [('ombott/common_helpers.py', "return not sum(0 if x == y else 1 for x, y in zip(a, b)) and len(a) == len(b)", "return len(a) >= len(b) and not sum(0 if x == y else 1 for x, y in zip(a, b))")]
DEMO = '''
from ombott.ombott import Request
r = HTTPResponse('x')
r.set_cookie('n', 'v', secret='s3')
v = dict(r.headerlist)['Set-Cookie'].split('=', 1)[1].strip('"')
def read(v):
    return Request({'HTTP_COOKIE': 'n="%s"' % v}).get_cookie('n', 'absent', secret='s3')
assert read(v) == 'v'
assert read(v.replace('?', 'A?')) == 'absent'
'''
