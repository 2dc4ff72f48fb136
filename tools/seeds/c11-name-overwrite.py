PROPERTY = 'C11'
NEEDS = 'prefix-wildcard removal of a branch that contains a named route'
BREAKS = 'lookup by name still finds the removed route'
EDITS = [('ombott/router/radirouter.py', 'self._remove_named_routers(set(patterns_to_del))', 'self._remove_named_routers(set(patterns_to_del[:1]))')]
DEMO = '''
app = Ombott()
app.route('/x/a', callback=lambda: 'a', name='a')
app.route('/x/b', callback=lambda: 'b', name='b')
app.remove_route('/x/*')
assert app.router['a'] is None and app.router['b'] is None
'''
