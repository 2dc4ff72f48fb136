PROPERTY = 'C14'
NEEDS = 'status 304 with a Content-Encoding header'
BREAKS = 'entity headers are withheld for 304 by an incomplete list'
EDITS = [('ombott/response.py', "        304: {'Allow', 'Content-Encoding', 'Content-Language',\n", "        304: {'Allow', 'Content-Language',\n")]
DEMO = '''
r = HTTPResponse('', 304)
r.headers['Content-Encoding'] = 'gzip'
assert not [n for n, v in r.headerlist if n == 'Content-Encoding'], r.headerlist
'''
