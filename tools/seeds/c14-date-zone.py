PROPERTY = 'C14'
NEEDS = 'an Expires value that is a text with a line break at its very end, or a date object'
BREAKS = 'the expires attribute is formatted by strftime and texts are taken as they are'
EDITS = [('ombott/common_helpers.py', """    def __set__(self, obj, value):
        obj.headers[self.name] = self.writer(value) if self.writer else value
""", """    def __set__(self, obj, value):
        if self.writer:
            obj.headers.dict[self.name] = self.writer(value)
        else:
            obj.headers[self.name] = value
""")]
DEMO = '''
import ombott
r = ombott.HTTPResponse()
try:
    r.expires = 'x\\r\\nA: b'
except ValueError:
    pass
assert all('\\n' not in v for k, v in r.headerlist)
'''
