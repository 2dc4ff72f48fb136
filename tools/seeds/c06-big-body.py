PROPERTY = 'C06'
NEEDS = 'a part that begins beyond the first megabyte and a division inside its header block'
BREAKS = 'the header block is not found'
EDITS = [('ombott/request_pkg/multipart.py', "        if end_head is not None:\n            self.headers_end_expected = CRLFx2[len(end_head):]\n", "        if end_head is not None and (base or len(chunk) < 1 << 14):\n            self.headers_end_expected = CRLFx2[len(end_head):]\n")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
def run(*parts):
    m = MultipartMarkup(b'b')
    for p in parts:
        m.parse(p)
    return m.markups, repr(m.error)
H = b'--b\\r\\nA: ' + b'x' * 40000 + b'\\r\\n'
T = b'\\r\\nx\\r\\n--b--\\r\\n'
k = 20
assert run(H + T) == run(H[:k], H[k:], T)
'''
