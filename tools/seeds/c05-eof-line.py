PROPERTY = 'C05'
NEEDS = 'a stream that is cut inside a size line right after leading zeros of the size'
BREAKS = 'a truncated encoding is presented as a complete body'
EDITS = [('ombott/request_pkg/body_mixin.py', """        while True:   # header[-2:] != rn:
            c = read(1)
            read_len += 1
""", """        while True:   # header[-2:] != rn:
            c = read(1)
            if not c and header_size_buff:
                break     # no line end behind the last size line
            read_len += len(c) or 1
""")]
DEMO = '''
import io
from ombott.request_pkg import Request
from ombott.request_pkg.errors import RequestError
w = b'3\\r\\nabc\\r\\n02\\r\\nde\\r\\n0\\r\\n\\r\\n'
assert Request({'wsgi.input': io.BytesIO(w), 'HTTP_TRANSFER_ENCODING': 'chunked'}).body.read() == b'abcde'
for i in range(len(w) - 5):
    r = Request({'wsgi.input': io.BytesIO(w[:i]), 'HTTP_TRANSFER_ENCODING': 'chunked'})
    try:
        b = r.body.read()
    except RequestError:
        continue
    raise SystemExit('accepted %r as %r' % (w[:i], b))
'''
