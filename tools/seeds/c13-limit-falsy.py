PROPERTY = 'C13'
NEEDS = 'a maximum body size of zero'
BREAKS = 'a limit of zero is no limit'
EDITS = [('ombott/request_pkg/body_mixin.py', """        if max_body_size is not None and body_size > max_body_size:
""", """        if max_body_size and body_size > max_body_size:
""")]
DEMO = '''
for limit, n, want in ((None, 10, '200'), (10, 10, '200'), (9, 10, '413'), (0, 0, '200'), (0, 10, '413')):
    app = Ombott(dict(max_body_size=limit))
    app.route('/x', 'POST', callback=lambda: app.request.body.read() and 'ok')
    s, h, b = call(app, env('POST', '/x', b'z' * n))
    assert s[:3] == want, (limit, n, s)
'''
