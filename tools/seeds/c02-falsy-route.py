PROPERTY = 'C02'
NEEDS = 'a route whose last method was removed'
BREAKS = 'a path that matches a route without methods is answered 404 instead of 405'
EDITS = [('ombott/router/radirouter.py', """        if not route:
            return None, [404, 'Not Found', extra]""", """        if not route or not route._methods:
            return None, [404, 'Not Found', extra]""")]
DEMO = '''
app = Ombott()
app.get('/a', callback=lambda: 'x')
app.router[{'/a'}].remove_method('GET')
s, h, b = call(app, env('GET', '/a'))
assert s.startswith('405'), s
app.router[{'/a'}].set_method('PUT', lambda: 'y')
s, h, b = call(app, env('GET', '/a'))
assert s.startswith('405') and dict(h)['Allow'] == 'PUT', s
'''
