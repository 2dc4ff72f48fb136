PROPERTY = 'C07'
NEEDS = 'a text value that consists of white space only or ends in line breaks'
BREAKS = 'a blank text value is delivered as empty'
EDITS = [('ombott/request_pkg/multipart.py', """            else:
                self.value = ''
""", """            if not sz or self.value.isspace():
                self.value = ''
""")]
DEMO = '''
app = Ombott()
@app.post('/')
def h():
    return repr(dict(app.request.forms))
vals = {'a': 'x', 'b': '', 'c': ' ', 'd': '\\\\r\\\\n', 'e': ' y '}
body = b''.join(b'--b\\r\\nContent-Disposition: form-data; name="%s"\\r\\n\\r\\n%s\\r\\n' % (k.encode(), v.encode()) for k, v in vals.items()) + b'--b--\\r\\n'
out = call(app, env('POST', '/', body, CONTENT_TYPE='multipart/form-data; boundary=b'))[2].decode()
assert out == repr(vals), out
'''
