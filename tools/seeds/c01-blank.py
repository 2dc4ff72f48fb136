PROPERTY = 'C01'
NEEDS = 'a path whose last wildcard value ends in a blank'
BREAKS = 'blanks at the ends of a path are dropped'
EDITS = [('ombott/router/radirouter.py', """        path = path.strip('/')
        route, extra""", """        path = path.strip('/ ')
        route, extra""")]
DEMO = '''
app = Ombott()
app.route('/f/<p>', callback=lambda p: '[%s]' % p)
assert call(app, env('GET', '/f/a'))[2] == b'[a]'
assert call(app, env('GET', '/f/a '))[2] == b'[a ]'
'''
