PROPERTY = 'C02'
NEEDS = 'a route with several methods of which one is registered again with overwrite=True'
BREAKS = 'overwriting one method removes the other methods of the route'
EDITS = [('ombott/router/radirouter.py', """        if overwrite:
            route.set_method(methods, handler, meta, params=params)""", """        if overwrite:
            route._methods.clear()
            route.set_method(methods, handler, meta, params=params)""")]
DEMO = '''
app = Ombott()
app.get('/a', callback=lambda: 'get')
app.post('/a', callback=lambda: 'post')
app.route('/a', 'POST', lambda: 'post2', overwrite=True)
assert call(app, env('POST', '/a'))[2] == b'post2'
assert call(app, env('GET', '/a'))[2] == b'get'
'''
