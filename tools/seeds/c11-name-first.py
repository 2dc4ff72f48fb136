PROPERTY = 'C11'
NEEDS = 'a named registration rejected because its method is already registered on the route'
BREAKS = 'the rejected registration leaves its name'
EDITS = [('ombott/router/radirouter.py', """        if overwrite:
            route.set_method(methods, handler, meta, params=params)
        else:
            route.add_method(methods, handler, meta, params=params)

        if name:
            self.named_routes[name] = route
        return route
""", """        if name:
            self.named_routes[name] = route

        if overwrite:
            route.set_method(methods, handler, meta, params=params)
        else:
            route.add_method(methods, handler, meta, params=params)
        return route
""")]
DEMO = '''
app = Ombott()
app.route('/a', callback=lambda: 'a')
try:
    app.route('/a', callback=lambda: 'b', name='n')
except Exception:
    pass
else:
    raise AssertionError('accepted')
assert app.router['n'] is None
app.route('/b', callback=lambda: 'b', name='n')
assert app.router['n'].rule == '/b'
'''
