PROPERTY = 'C07'
NEEDS = 'an upload read in pieces while another upload (or the raw body) is read in between'
BREAKS = 'the pieces continue where the shared body file happens to stand: bytes of another part are delivered'
EDITS = [('ombott/request_pkg/multipart.py', """        self._src.seek(self._pos)
        self._pos += sz
""", """        if self._pos != getattr(self, '_next', None):    # not a sequential read
            self._src.seek(self._pos)
        self._next = self._pos = self._pos + sz
""")]
DEMO = '''
app = Ombott()
out = []
def h():
    a, b = app.request.files['a'].file, app.request.files['b'].file
    x = a.read(3)
    y = b.read(3)
    out.append((x + a.read(), y + b.read()))
    return 'ok'
app.post('/', callback=h)
body = b''.join(b'--B\\r\\nContent-Disposition: form-data; name="%b"; filename="f"\\r\\n\\r\\n%b\\r\\n' % (n, n * 10) for n in (b'a', b'b')) + b'--B--\\r\\n'
call(app, env('POST', '/', body, CONTENT_TYPE='multipart/form-data; boundary=B'))
assert out == [(b'a' * 10, b'b' * 10)], out
'''
