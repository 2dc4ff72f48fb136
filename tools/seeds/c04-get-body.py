PROPERTY = 'C04'
NEEDS = 'a body sent with a method that usually has none (GET, HEAD, DELETE, OPTIONS)'
BREAKS = 'the body of such a request is presented as empty'
EDITS = [('ombott/request_pkg/body_mixin.py', """                content_length=self.content_length,
""", """                content_length=0 if self.method in ('GET', 'HEAD', 'OPTIONS') else self.content_length,
""")]
DEMO = '''
app = Ombott()
@app.route('/', ['GET', 'POST', 'OPTIONS'])
def h():
    return app.request.body.read()
for m in ('POST', 'GET', 'OPTIONS'):
    assert call(app, env(m, '/', b'payload'))[2] == b'payload', m
'''
