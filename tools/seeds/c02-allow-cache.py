PROPERTY = 'C02'
NEEDS = 'a 405 on a route, then another method registered on it (or one removed), then a 405 again'
BREAKS = 'the Allow list is computed once per route'
EDITS = [('ombott/router/radirouter.py', "        'rule', '_methods', 'pattern', 'params', 'filters',\n", "        'rule', '_methods', 'pattern', 'params', 'filters', '_allow',\n"),
  ('ombott/router/radirouter.py', '            allowed = ",".join(sorted(route.methods))\n', """            allowed = getattr(route, '_allow', None)
            if allowed is None:
                allowed = route._allow = ",".join(sorted(route.methods))
""")]
DEMO = '''
app = Ombott()
app.route('/a', method='GET', callback=lambda: 'a')
r = call(app, env('POST', '/a'))
assert r[0].startswith('405') and dict(r[1])['Allow'] == 'GET', r
app.route('/a', method='PUT', callback=lambda: 'a')
r = call(app, env('POST', '/a'))
assert r[0].startswith('405') and dict(r[1])['Allow'] == 'GET,PUT', r
'''
