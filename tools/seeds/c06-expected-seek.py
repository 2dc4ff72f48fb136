PROPERTY = 'C06'
NEEDS = 'two buffer ends inside the blank line that ends the headers of a part'
BREAKS = 'the end of the headers is reported at a wrong position when the blank line spans three buffers'
EDITS = [('ombott/request_pkg/multipart.py', """                return base + expected_len - CRLFx2_LEN""", """                return base + min(expected_len, CRLF_LEN) - CRLFx2_LEN""")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
body = b'--bound\\r\\nA: b\\r\\n\\r\\ndata\\r\\n--bound--\\r\\n'
def parse(*cuts):
    m = MultipartMarkup('bound')
    p = 0
    for c in cuts + (len(body),):
        m.parse(body[p:c]); p = c
    return m.markups, repr(m.error)
want = parse()
for i in range(1, len(body)):
    assert parse(i) == want, (i, parse(i), want)
'''
