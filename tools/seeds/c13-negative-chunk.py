PROPERTY = 'C13'
NEEDS = 'a chunked body whose size line is negative'
BREAKS = 'a negative size asks the stream for everything it has: the whole stream is read before the limit is looked at'
EDITS = [('ombott/request_pkg/body_mixin.py', """        # read chunk body
        while rest_len > 0:""", """        # read chunk body
        while rest_len:""")]
DEMO = '''
class Count(io.BytesIO):
    n = 0
    def read(self, n=-1):
        d = super().read(n); self.n += len(d); return d
app = Ombott(dict(max_body_size=100, max_memfile_size=50))
@app.post('/')
def h():
    return app.request.body.read()
for size in (b'100000', b'-1'):
    s = Count(size + b'\\r\\n' + b'x' * 100000)
    e = env('POST', '/'); e['wsgi.input'] = s; e['HTTP_TRANSFER_ENCODING'] = 'chunked'
    st = call(app, e)[0]
    assert st.startswith('4'), st
    assert s.n < 200, (size, s.n)
'''
