PROPERTY = 'C13'
NEEDS = 'a body exactly as long as the limit, delivered in several reads'
BREAKS = 'a body of exactly the limit is refused once it needed more than one read'
EDITS = [('ombott/request_pkg/body_mixin.py', """        if max_body_size is not None and body_size > max_body_size:
            raise BodySizeError()""", """        if max_body_size is not None and body_size + is_temp_file > max_body_size:
            raise BodySizeError()""")]
DEMO = '''
for n in (10, 99, 100, 101):
    app = Ombott(dict(max_body_size=100, max_memfile_size=30))
    @app.post('/')
    def h():
        return app.request.body.read()
    s, _, b = call(app, env('POST', '/', b'x' * n))
    assert s.startswith('200' if n <= 100 else '413'), (n, s)
'''
