PROPERTY = 'C02'
NEEDS = 'a route without methods left (all removed) asked for'
BREAKS = 'a matched route without methods is answered with 404 instead of 405'
EDITS = [('ombott/router/radirouter.py', "        if not route:\n            return None, [404, 'Not Found', extra]\n", "        if not route or not route._methods:\n            return None, [404, 'Not Found', {'hooks': [], **extra}]\n")]
DEMO = '''
app = Ombott()
app.get('/a', callback=lambda: 'x')
app.router[{'/a'}].remove_method('GET')
assert call(app, env(path='/a'))[0][:3] == '405'
'''
