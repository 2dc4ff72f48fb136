PROPERTY = 'C06'
NEEDS = 'a buffer that ends with the first byte of a delimiter right behind a partial look-alike'
BREAKS = 'a mismatching delimiter rest is dropped together with the delimiter start that follows it in the same short tail'
EDITS = [('ombott/request_pkg/multipart.py', """                        self.trest_len = self.trest = None
                        return data_end
                    trest_len = trest = None

            if part""", """                        self.trest_len = self.trest = None
                        return data_end
                    trest_len = trest = None
                    part = None

            if part""")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
body = b'--bound\\r\\nA: b\\r\\n\\r\\n\\r\\n--boun\\r\\n--bound--\\r\\n'
def parse(*cuts):
    m = MultipartMarkup('bound')
    p = 0
    for c in cuts + (len(body),):
        m.parse(body[p:c]); p = c
    return m.markups, repr(m.error)
want = parse()
for i in range(1, len(body)):
    for j in range(i + 1, len(body)):
        assert parse(i, j) == want, (i, j, parse(i, j), want)
'''
