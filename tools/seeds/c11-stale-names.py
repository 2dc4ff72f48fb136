PROPERTY = 'C11'
NEEDS = 'a name that moved from one route to another by overwriting, then removal of the first route'
BREAKS = 'the name of the surviving route is lost'
EDITS = [('ombott/router/radirouter.py', """        if name:
            self.named_routes[name] = route
        return route
""", """        if name:
            self.named_routes[name] = route
            self._names.setdefault(route.pattern, []).append(name)
        return route
"""), ('ombott/router/radirouter.py', """        for k, r in [*self.named_routes.items()]:
            if r.pattern in pattern_set:
                self.named_routes.pop(k)""", """        for pattern in pattern_set:
            for k in self._names.pop(pattern, ()):
                self.named_routes.pop(k, None)"""), ('ombott/router/radirouter.py', """    __slots__ = ('radidict', 'routes', 'hooks', 'named_routes')
""", """    __slots__ = ('radidict', 'routes', 'hooks', 'named_routes', '_names')
"""), ('ombott/router/radirouter.py', "        self.named_routes = dict()\n", "        self.named_routes = dict()\n        self._names = dict()\n")]
DEMO = '''
from ombott.router import RadiRouter
r = RadiRouter()
r.add('/a', 'GET', lambda: 1, 'n')
b = r.add('/b', 'GET', lambda: 2, 'n', overwrite=True)
assert r['n'] is b
r.remove('/a')
assert r['n'] is b
'''
