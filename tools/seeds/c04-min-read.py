PROPERTY = 'C04'
NEEDS = 'further bytes on the connection behind the body (keep-alive / pipelining)'
BREAKS = 'the stream is asked for bytes beyond Content-Length'
EDITS = [('ombott/request_pkg/body_mixin.py', """    while rest_len > 0:
        part_size = min(rest_len, buff_size)
        part = read(part_size)
        if not part:
            break
""", """    while rest_len > 0:
        # avoid tiny reads
        part_size = min(max(rest_len, 16), buff_size)
        part = read(part_size)[:rest_len]
        if not part:
            break
""")]
DEMO = '''
import io
from ombott.request_pkg import Request
s = io.BytesIO(b'body' + b'GET / HTTP/1.1')
assert Request({'wsgi.input': s, 'CONTENT_LENGTH': '4'}).body.read() == b'body'
assert s.tell() == 4, s.tell()
'''
