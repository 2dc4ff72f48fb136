PROPERTY = 'C12'
NEEDS = 'a multipart content type without a boundary'
BREAKS = 'the request ends in 500'
EDITS = [('ombott/request_pkg/body_mixin.py', """        if markup is None:
            # should never happen since we check content-type
            # when reading body
            raise BodyParsingError()
        elif markup.error""", """        if markup.error""")]
DEMO = '''
app = Ombott()
app.route('/a', method='POST', callback=lambda: str(app.request.forms))
r = call(app, env('POST', '/a', b'--x', CONTENT_TYPE='multipart/form-data'))
assert r[0].startswith('400'), r
'''
