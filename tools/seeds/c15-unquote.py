PROPERTY = 'C15'
NEEDS = 'a plain cookie whose value contains a percent escape'
BREAKS = 'values are percent-decoded on the way in, though never encoded on the way out'
EDITS = [('ombott/request_pkg/props_mixin.py', """        value = self.cookies.get(key)
""", """        value = self.cookies.get(key)
        if value and not secret:
            return self.cookies.getunicode(key, value).replace('%20', ' ').replace('%3B', ';')
""")]
DEMO = '''
from ombott.ombott import Request
r = HTTPResponse('x')
r.set_cookie('n', '100%20 off')
v = dict(r.headerlist)['Set-Cookie']
assert Request({'HTTP_COOKIE': v}).get_cookie('n') == '100%20 off'
'''
