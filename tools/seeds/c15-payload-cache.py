PROPERTY = 'C15'
NEEDS = 'the same authentic cookie is read with the right secret and then with a wrong one in one process'
BREAKS = 'decoded cookies are cached by their text alone, so another secret reads them too'
EDITS = [('ombott/common_helpers.py', """    data = tob(data)
    if cookie_is_encoded(data):
""", """    data = tob(data)
    if data in _decoded:
        return pickle.loads(_decoded[data])
    if cookie_is_encoded(data):
"""), ('ombott/common_helpers.py', """            return pickle.loads(base64.b64decode(msg))
    return None
""", """            if len(_decoded) > 1000:
                _decoded.clear()
            _decoded[data] = base64.b64decode(msg)
            return pickle.loads(_decoded[data])
    return None
"""), ('ombott/common_helpers.py', """def cookie_decode(data, key):
""", """_decoded = {}


def cookie_decode(data, key):
""")]
DEMO = '''
from ombott.ombott import Request
r = HTTPResponse('x')
r.set_cookie('n', 'v', secret='s3')
v = dict(r.headerlist)['Set-Cookie'].split('=', 1)[1].strip('"')
def read(v, s):
    return Request({'HTTP_COOKIE': 'n="%s"' % v}).get_cookie('n', 'absent', secret=s)
assert read(v, 's4') == 'absent'
assert read(v, 's3') == 'v'
assert read(v, 's4') == 'absent'
'''
