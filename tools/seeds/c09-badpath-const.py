PROPERTY = 'C09'
NEEDS = 'two undecodable paths and an error handler that changes the error it is given'
BREAKS = 'one error object serves all the undecodable paths, with whatever an error handler did to it'
EDITS = [('ombott/ombott.py', """            return HTTPError(400, 'Invalid path string. Expected UTF-8')
""", """            return _invalid_path
"""), ('ombott/ombott.py', """class _closeiter:
""", """_invalid_path = HTTPError(400, 'Invalid path string. Expected UTF-8')


class _closeiter:
""")]
DEMO = '''
app = Ombott()
@app.error(400)
def e400(e):
    seen = e.headers.get('X-Trace')
    e.headers['X-Trace'] = app.request.query_string
    return 'seen %s' % seen
for q in ('one', 'two'):
    e = env('GET', '/', qs=q)
    e['PATH_INFO'] = '/\\xff'
    s, h, b = call(app, e)
    assert b == b'seen None', b
'''
