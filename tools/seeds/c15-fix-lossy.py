PROPERTY = 'C15'
NEEDS = 'a plain cookie whose text is read through request.cookies with bytes beyond ASCII'
BREAKS = 'text that is not ASCII comes back altered'
EDITS = [('ombott/request_pkg/helpers.py', """            return s.encode('latin1').decode(encoding)
        else:
            return s

    def decode(self, encoding: str = None):
        ''' Returns a copy with all keys and values de- or recoded to match
            :attr:`input_encoding`. Some libraries (e.g. WTForms) want a
            unicode dictionary.
        '''
        if self._decoded:""", """            return normalize('NFC', s.encode('latin1').decode(encoding))
        else:
            return s

    def decode(self, encoding: str = None):
        ''' Returns a copy with all keys and values de- or recoded to match
            :attr:`input_encoding`. Some libraries (e.g. WTForms) want a
            unicode dictionary.
        '''
        if self._decoded:""")]
DEMO = '''
from ombott.ombott import Request
for val in ('e\\u0301', '\\xe9', '\\u212b', 'abc'):
    r = HTTPResponse('x')
    r.set_cookie('n', val)
    v = dict(r.headerlist)['Set-Cookie']
    assert Request({'HTTP_COOKIE': v}).get_cookie('n') == val
'''
