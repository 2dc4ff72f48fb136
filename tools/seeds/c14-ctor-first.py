PROPERTY = 'C14'
NEEDS = 'headers given to the constructor of a response (dict or pairs)'
BREAKS = 'constructor headers are stored without the guard unless the name repeats'
EDITS = [('ombott/response.py', "            for name, value in headers:\n                self.headers.append(name, value)\n", "            for name, value in headers:\n                if name in self._headers:\n                    self.headers.append(name, value)\n                else:\n                    self._headers[name] = str(value)\n")]
DEMO = '''
try:
    r = HTTPResponse('x', headers={'X-A': 'a\\r\\nX-B: c'})
except ValueError:
    pass
else:
    assert not any('\\n' in v for _, v in r.headerlist), r.headerlist
'''
