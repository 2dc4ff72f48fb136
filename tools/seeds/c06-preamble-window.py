PROPERTY = 'C06'
NEEDS = 'a body that starts with CR and is cut right behind it'
BREAKS = 'a body whose first read is a lone CR is treated differently from the same body in one piece'
EDITS = [('ombott/request_pkg/multipart.py', """            if chunk_start == CR:
                return self._eat_data(chunk, base)
""", """            if chunk_start == CR and len(chunk) > 1:
                return self._eat_data(chunk, base)
""")]
DEMO = '''
from ombott.request_pkg.multipart import MultipartMarkup
body = b'\\r\\n--b\\r\\nContent-Disposition: form-data; name="a"\\r\\n\\r\\nv\\r\\n--b--\\r\\n'
def run(cuts):
    m = MultipartMarkup(b'b')
    prev = 0
    for c in list(cuts) + [len(body)]:
        m.parse(body[prev:c]); prev = c
    return m.markups, repr(m.error)
want = run([])
for i in range(1, len(body)):
    assert run([i]) == want, i
'''
