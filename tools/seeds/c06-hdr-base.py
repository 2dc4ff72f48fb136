PROPERTY = 'C06'
NEEDS = 'a buffer that ends with the CR of a header line or of the blank line'
BREAKS = 'the expected rest of the header end has the wrong length'
EDITS = [('ombott/request_pkg/multipart.py', "            self.headers_end_expected = CRLFx2[len(end_head):]", "            self.headers_end_expected = CRLFx2[-len(end_head):]")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
body = b'--bound\\r\\nA: b\\r\\n\\r\\ndata\\r\\n--bound--\\r\\n'
def parse(*cuts):
    m = MultipartMarkup('bound')
    p = 0
    for c in cuts + (len(body),):
        m.parse(body[p:c]); p = c
    return m.markups, repr(m.error)
want = parse()
for i in range(1, len(body)):
    for j in range(i + 1, len(body)):
        assert parse(i, j) == want, (i, j, parse(i, j), want)
'''
