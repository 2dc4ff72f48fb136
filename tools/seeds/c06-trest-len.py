PROPERTY = 'C06'
NEEDS = 'a delimiter divided over three read buffers'
BREAKS = 'the length of the expected delimiter rest is not shortened with the rest, the section end is computed wrongly'
EDITS = [('ombott/request_pkg/multipart.py', """                    if trest.startswith(part):
                        trest_len -= part_len
                        trest = trest[part_len:]
                        part = None
""", """                    if trest.startswith(part):
                        trest = trest[part_len:]
                        part = None
""")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
body = b'--bound\\r\\nA: b\\r\\n\\r\\ndata\\r\\n--bound--\\r\\n'
def parse(*cuts):
    m = MultipartMarkup('bound')
    p = 0
    for c in cuts + (len(body),):
        m.parse(body[p:c]); p = c
    return m.markups, repr(m.error)
want = parse()
for i in range(1, len(body)):
    for j in range(i + 1, len(body)):
        assert parse(i, j) == want, (i, j, parse(i, j), want)
'''
