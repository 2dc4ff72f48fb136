PROPERTY = 'C13'
NEEDS = 'several multipart text fields, each within the threshold, together above it'
BREAKS = 'form text larger than the in-memory threshold is loaded'
EDITS = [('ombott/request_pkg/multipart.py', "            max_read -= has_read\n", "            max_read = max(max_read, has_read)\n")]
DEMO = '''
app = Ombott(dict(max_memfile_size=300))
app.post('/', callback=lambda: str(len(app.request.forms)))
def body(k):
    return b''.join(b'--b\\r\\nContent-Disposition: form-data; name="f%d"\\r\\n\\r\\n%s\\r\\n' % (i, b'x' * 100) for i in range(k)) + b'--b--\\r\\n'
assert call(app, env('POST', '/', body(1), CONTENT_TYPE='multipart/form-data; boundary=b'))[0][:3] == '200'
assert call(app, env('POST', '/', body(9), CONTENT_TYPE='multipart/form-data; boundary=b'))[0][:3] == '413'
'''
