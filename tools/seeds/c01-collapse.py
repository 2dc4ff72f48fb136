PROPERTY = 'C01'
NEEDS = 'a path with empty segments inside a path wildcard (or a wildcard that would have to be empty)'
BREAKS = 'repeated slashes are collapsed before matching: other values are bound and paths match that no rule matches'
EDITS = [('ombott/router/radirouter.py', """        path = path.strip('/')
        route, extra""", """        path = '/'.join(p for p in path.split('/') if p)
        route, extra""")]
DEMO = '''
app = Ombott()
app.route('/f/<p:path>', callback=lambda p: p)
app.route('/x/y', callback=lambda: 'xy')
assert call(app, env('GET', '/f/a/b'))[2] == b'a/b'
assert call(app, env('GET', '/f/a//b'))[2] == b'a//b'
assert call(app, env('GET', '/x//y'))[0].startswith('404')
'''
