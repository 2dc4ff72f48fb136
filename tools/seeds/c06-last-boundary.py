PROPERTY = 'C06'
NEEDS = 'a read that ends between the two hyphens of the last delimiter, with an epilogue after it'
BREAKS = 'a hyphen at the end of a read is taken for the end of the body'
EDITS = [('ombott/request_pkg/multipart.py', """    def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
        chunk_start = chunk[base: base + 1]
        if not chunk_start:
            return
""", """    def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
        chunk_start = chunk[base: base + 1]
        if not chunk_start:
            self.stopped = True
            return base
""")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
b = b'--b\\r\\nA: b\\r\\n\\r\\nx\\r\\n--b-x'
def go(cuts):
    m = MultipartMarkup(b'b')
    for c in cuts: m.parse(c)
    return m.markups, type(m.error)
whole = go([b])
for i in range(1, len(b)):
    assert go([b[:i], b[i:]]) == whole, i
'''
