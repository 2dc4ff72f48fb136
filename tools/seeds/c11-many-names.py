PROPERTY = 'C11'
NEEDS = 'more than thirty-two removals'
BREAKS = 'a removal leaves the name of the route'
EDITS = [('ombott/router/radirouter.py', "                self.routes.pop(route_pattern, None)\n                self._remove_named_routers({route_pattern})\n", "                self.routes.pop(route_pattern, None)\n                if len(self.named_routes) < 32:\n                    self._remove_named_routers({route_pattern})\n")]
DEMO = '''
from ombott.router import RadiRouter
r = RadiRouter()
for i in range(40):
    r.add('/a%d' % i, 'GET', lambda: 1, 'n%d' % i)
r.remove('/a3')
assert r['n3'] is None
'''
