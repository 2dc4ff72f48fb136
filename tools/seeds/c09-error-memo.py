PROPERTY = 'C09'
NEEDS = 'a 404 after a 404 whose error handler changed the error it was given'
BREAKS = 'one 404 object serves all the requests, with whatever an error handler did to it'
EDITS = [('ombott/ombott.py', """                raise HTTPError(status, body)

        if route_hooks:
""", """                raise app._not_found

        if route_hooks:
"""), ('ombott/ombott.py', """        self.error_handlers = {'404-hooks': {}}
""", """        self.error_handlers = {'404-hooks': {}}
        self._not_found = HTTPError(404, 'Not Found')
""")]
DEMO = '''
app = Ombott()
@app.error(404)
def e404(e):
    seen = e.headers.get('X-Trace')
    e.headers['X-Trace'] = app.request.path
    return 'seen %s' % seen
for p in ('/one', '/two'):
    s, h, b = call(app, env('GET', p))
    assert b == b'seen None', b
'''
