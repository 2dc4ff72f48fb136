PROPERTY = 'C07'
NEEDS = 'a handler that seeks in an upload relative to the current position'
BREAKS = 'it gets to bytes of another part'
EDITS = [('ombott/request_pkg/multipart.py', "            self.seek(self.tell() + pos)\n", "            self._pos += pos\n")]
DEMO = '''
app = Ombott()
def h():
    f = app.request.files['f'].file
    f.seek(-20, 1)
    return f.read()
app.route('/', ['POST'], callback=h)
b = b'--b\\r\\nContent-Disposition: form-data; name="f"; filename="n"\\r\\n\\r\\nabc\\r\\n--b--\\r\\n'
assert call(app, env('POST', '/', b, CONTENT_TYPE='multipart/form-data; boundary=b', CONTENT_LENGTH=str(len(b))))[2] == b'abc'
'''
