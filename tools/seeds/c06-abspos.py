PROPERTY = 'C06'
NEEDS = 'a buffer boundary that falls exactly behind a delimiter (before the CRLF of the next part)'
BREAKS = 'the start of the next section loses the CRLF skip that happens in the next buffer'
EDITS = [('ombott/request_pkg/multipart.py', """            abs_start_section = self.abspos + start_next_sec + skip_start

        self.abspos""", """            abs_start_section = self.abspos + start_next_sec
            if start_next_sec < len(chunk):
                abs_start_section += skip_start

        self.abspos""")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
body = b'--bound\\r\\nA: b\\r\\n\\r\\ndata\\r\\n--bound\\r\\nC: d\\r\\n\\r\\nmore\\r\\n--bound--\\r\\n'
def parse(*cuts):
    m = MultipartMarkup('bound')
    p = 0
    for c in cuts + (len(body),):
        m.parse(body[p:c]); p = c
    return m.markups, repr(m.error)
want = parse()
for i in range(1, len(body)):
    assert parse(i) == want, (i, parse(i), want)
'''
