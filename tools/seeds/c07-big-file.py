PROPERTY = 'C07'
NEEDS = 'an uploaded file larger than four megabytes read at once'
BREAKS = 'read() returns the first four megabytes only'
EDITS = [('ombott/request_pkg/multipart.py', "        else:\n            sz = max_sz\n        self._src.seek(self._pos)", "        else:\n            sz = min(max_sz, 1 << 22)\n        self._src.seek(self._pos)")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: str(len(app.request.files['a'].file.read())))
body = b'--b\\r\\nContent-Disposition: form-data; name="a"; filename="f"\\r\\n\\r\\n%s\\r\\n--b--\\r\\n' % (b'n' * 5000000)
assert call(app, env('POST', '/', body, CONTENT_TYPE='multipart/form-data; boundary=b'))[2] == b'5000000'
'''
