PROPERTY = 'C11'
NEEDS = 'a route registered under two names, removed by one of them (or by rule)'
BREAKS = 'the other name still leads to the removed route'
EDITS = [('ombott/router/radirouter.py', """            if r.pattern in pattern_set:
                self.named_routes.pop(k)
""", """            if r.pattern in pattern_set:
                self.named_routes.pop(k)
                pattern_set = pattern_set - {r.pattern}
""")]
DEMO = '''
app = Ombott()
app.route('/a', method='GET', callback=lambda: 'a', name='n1')
app.route('/a', method='POST', callback=lambda: 'a', name='n2')
app.remove_route('/a')
assert app.router['n1'] is None and app.router['n2'] is None
'''
