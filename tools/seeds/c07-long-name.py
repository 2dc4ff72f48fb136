PROPERTY = 'C07'
NEEDS = 'a field name longer than 255 characters'
BREAKS = 'the name is cut'
EDITS = [('ombott/request_pkg/multipart.py', "                self.name = header.options.get('name')\n", "                self.name = header.options.get('name')\n                if self.name:\n                    self.name = self.name[:255]\n")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: str(len(list(app.request.forms)[0])))
body = b'--b\\r\\nContent-Disposition: form-data; name="%s"\\r\\n\\r\\nx\\r\\n--b--\\r\\n' % (b'n' * 300)
assert call(app, env('POST', '/', body, CONTENT_TYPE='multipart/form-data; boundary=b'))[2] == b'300'
'''
