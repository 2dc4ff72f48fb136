PROPERTY = 'C10'
NEEDS = 'a server stream or handler that calls another application while a body was read'
BREAKS = 'in-memory bodies of one thread share a buffer'
EDITS = [('ombott/request_pkg/body_mixin.py', """    body, body_size, is_temp_file = BytesIO(), 0, False
""", """    body, body_size, is_temp_file = _buffer(), 0, False
"""), ('ombott/request_pkg/body_mixin.py', """class BodyMixin:
""", """_buffers = local()


def _buffer():
    ''' Reuse the memory of an earlier request of this thread. '''
    buff = _buffers.__dict__.setdefault('buff', BytesIO())
    buff.seek(0)
    buff.truncate()
    return buff


class BodyMixin:
"""), ('ombott/request_pkg/body_mixin.py', """from functools import partial
""", """from functools import partial
from threading import local
""")]
DEMO = '''
a, b = Ombott(), Ombott()
b.post('/', callback=lambda: b.request.body.read())
def ha():
    a.request.body
    call(b, env('POST', '/', b'other'))
    return a.request.body.read()
a.post('/', callback=ha)
r = call(a, env('POST', '/', b'mine'))
assert r[2] == b'mine', r
'''
