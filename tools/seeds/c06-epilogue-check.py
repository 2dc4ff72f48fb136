PROPERTY = 'C06'
NEEDS = 'a division right behind the closing delimiter'
BREAKS = 'an epilogue in the same buffer is refused but one in another buffer is not'
EDITS = [('ombott/request_pkg/multipart.py', """        if chunk_start == HYPHEN:
            self.stopped = True
            return base + 1
""", """        if chunk_start == HYPHEN:
            if chunk[base + 1: base + 2] not in (b'', CR, b' ', b'\\t'):
                raise UnexpectedBodyEndError('Line break was expected')
            self.stopped = True
            return base + 1
""")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
def run(*parts):
    m = MultipartMarkup(b'b')
    for p in parts:
        m.parse(p)
    return m.markups, repr(m.error)
B = b'--b\\r\\nA: b\\r\\n\\r\\nx\\r\\n--b--'
assert run(B + b'\\r\\n') == run(B, b'\\r\\n')
assert run(B + b'Xepilogue') == run(B, b'Xepilogue')
'''
