PROPERTY = 'C06'
NEEDS = 'a buffer that is shorter than the rest of a delimiter begun in the buffer before, and that rest goes on in the next one'
BREAKS = 'the rest of the delimiter is compared from its beginning again'
EDITS = [('ombott/request_pkg/multipart.py', """                        trest_len -= part_len
                        trest = trest[part_len:]
                        part = None
""", """                        trest_len -= part_len
                        trest = token[tlen - trest_len - 1:][:trest_len]
                        part = None
""")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
body = b'--bound\\r\\nA: b\\r\\n\\r\\ndata\\r\\n--bound--\\r\\n'
def parse(*cuts):
    m = MultipartMarkup('bound')
    p = 0
    for c in cuts + (len(body),):
        m.parse(body[p:c]); p = c
    return m.markups, repr(m.error)
want = parse()
for i in range(1, len(body)):
    for j in range(i + 1, len(body)):
        assert parse(i, j) == want, (i, j, parse(i, j), want)
'''
