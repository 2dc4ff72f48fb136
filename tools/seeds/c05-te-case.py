PROPERTY = 'C05'
NEEDS = 'a Transfer-Encoding header that is not all lower case'
BREAKS = 'the chunked body is presented as empty'
EDITS = [('ombott/request_pkg/body_mixin.py', "return 'chunked' in self.environ.get('HTTP_TRANSFER_ENCODING', '').lower()",
          "return 'chunked' in self.environ.get('HTTP_TRANSFER_ENCODING', '')")]
DEMO = '''
import io
from ombott.request_pkg import Request
for te in ('chunked', 'Chunked'):
    r = Request({'wsgi.input': io.BytesIO(b'3\\r\\nabc\\r\\n0\\r\\n\\r\\n'), 'HTTP_TRANSFER_ENCODING': te})
    assert r.body.read() == b'abc', te
'''
