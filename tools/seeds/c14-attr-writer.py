PROPERTY = 'C14'
NEEDS = 'a header attribute with a writer (expires) given a string'
BREAKS = 'the value of a written header attribute bypasses the guard'
EDITS = [('ombott/common_helpers.py', "        obj.headers[self.name] = self.writer(value) if self.writer else value\n", "        if self.writer:\n            obj.headers.dict[self.name] = self.writer(value)\n        else:\n            obj.headers[self.name] = value\n")]
DEMO = '''
r = HTTPResponse('x')
try:
    r.expires = 'now\\r\\nX-B: c'
except ValueError:
    pass
assert not any('\\n' in v for _, v in r.headerlist), r.headerlist
'''
