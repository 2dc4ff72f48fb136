PROPERTY = 'C15'
NEEDS = 'a signed cookie whose signature is truncated (down to nothing) with any payload'
BREAKS = 'only the common length of the signatures is compared: an empty or truncated signature verifies anything'
EDITS = [('ombott/common_helpers.py', "return not sum(0 if x == y else 1 for x, y in zip(a, b)) and len(a) == len(b)", "return not sum(x != y for x, y in zip(a, b)) and len(a) <= len(b)")]
DEMO = '''
import base64, pickle
from ombott.ombott import Request
r = HTTPResponse('x')
r.set_cookie('n', 'v', secret='s3')
v = dict(r.headerlist)['Set-Cookie'].split('=', 1)[1].strip('"')
def read(v):
    return Request({'HTTP_COOKIE': 'n="%s"' % v}).get_cookie('n', 'absent', secret='s3')
assert read(v) == 'v'
assert read('!?' + base64.b64encode(pickle.dumps(('n', 'forged'))).decode()) == 'absent'
'''
