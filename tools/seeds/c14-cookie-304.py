PROPERTY = 'C14'
NEEDS = 'a 304 response that sets a cookie'
BREAKS = 'entity headers are not withheld beside cookies'
EDITS = [('ombott/response.py', """        bad_headers = self.bad_headers.get(self._status_code)
""", """        bad_headers = self.bad_headers.get(self._status_code)
        if self._cookies and self._status_code == 304:
            bad_headers = self.bad_headers[204]
""")]
DEMO = '''
app = Ombott()
def h():
    app.response.status = 304
    app.response.set_cookie('a', 'b')
    app.response.headers['Content-Language'] = 'de'
    return ''
app.route('/', callback=h)
r = call(app, env())
assert not any(k == 'Content-Language' for k, v in r[1]), r
'''
