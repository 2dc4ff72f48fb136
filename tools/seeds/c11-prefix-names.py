PROPERTY = 'C11'
NEEDS = 'a removal by prefix wildcard of routes some of which were registered under two names'
BREAKS = 'of several names of a removed route only one goes away'
EDITS = [('ombott/router/radirouter.py', """        for k, r in [*self.named_routes.items()]:
            if r.pattern in pattern_set:
                self.named_routes.pop(k)
""", """        pattern_set = set(pattern_set)
        for k, r in [*self.named_routes.items()]:
            if r.pattern in pattern_set:
                self.named_routes.pop(k)
                pattern_set.discard(r.pattern)
""")]
DEMO = '''
from ombott.router.radirouter import RadiRouter
r = RadiRouter()
r.add('/a/x', 'GET', lambda: 1, 'one')
r.add('/a/x', 'POST', lambda: 1, 'two')
r.add('/a/y', 'GET', lambda: 1, 'three')
r.remove('/a/*')
assert r['three'] is None and r['one'] is None and r['two'] is None
'''
