PROPERTY = 'C20'
NEEDS = 'a request method with markup in it, on a path that has a route'
BREAKS = 'the 405 page shows the method as it came'
EDITS = [('ombott/ombott.py', """            if status == 405:
                raise HTTPError(status, body, Allow=extra)
""", """            if status == 405:
                body = 'Method %s not allowed.' % app.request.method
                raise HTTPError(status, body, Allow=extra)
""")]
DEMO = '''
app = Ombott()
app.route('/', callback=lambda: 'x')
body = call(app, env('<SCRIPT>X', '/'))[2]
assert b'<SCRIPT>' not in body, body
'''
