PROPERTY = 'C15'
NEEDS = 'a signed cookie whose value is falsy (0, empty list, False, None)'
BREAKS = 'falsy signed values read as absent'
EDITS = [('ombott/request_pkg/props_mixin.py', "            return dec[1] if dec and dec[0] == key else default\n", "            return dec and dec[0] == key and dec[1] or default\n")]
DEMO = '''
from ombott.ombott import Request
for val in (0, [], False, {}, 5):
    r = HTTPResponse('x')
    r.set_cookie('n', val, secret='s3')
    v = dict(r.headerlist)['Set-Cookie']
    assert Request({'HTTP_COOKIE': v}).get_cookie('n', 'absent', secret='s3') == val
'''
