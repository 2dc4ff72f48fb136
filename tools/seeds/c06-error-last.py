PROPERTY = 'C06'
NEEDS = 'a malformed prefix whose error is found in one buffer, followed by further buffers'
BREAKS = 'the parser goes on after an error: the reported error or the sections depend on where the buffers end'
EDITS = [('ombott/request_pkg/multipart.py', """        if self.error is not None:
            return
        try:
            self._parse(chunk)
        except Exception as exc:
            self.error = exc""", """        try:
            self._parse(chunk)
        except Exception as exc:
            self.error = exc""")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
body = b'--bound\\r\\nA: b\\r\\n\\r\\ndata\\r\\n--boundX\\r\\nC: d\\r\\n\\r\\nmore\\r\\n--bound-X\\r\\n'
def parse(*cuts):
    m = MultipartMarkup('bound')
    p = 0
    for c in cuts + (len(body),):
        m.parse(body[p:c]); p = c
    return m.markups, repr(m.error)
want = parse()
for i in range(1, len(body)):
    for j in range(i + 1, len(body)):
        assert parse(i, j) == want, (i, j, parse(i, j), want)
'''
