PROPERTY = 'C11'
NEEDS = 'more than 200 routes removed from one router'
BREAKS = 'removed routes stay in the tree from then on'
EDITS = [('ombott/router/radirouter.py', "        self.named_routes = dict()\n", "        self.named_routes = dict()\n        self.hooks['removed'] = 0\n"), ('ombott/router/radirouter.py', "            self.radidict.remove(route_pattern, wildcard=False)\n", "            self.radidict.remove(route_pattern, wildcard=False)\n"), ('ombott/router/radirouter.py', "                self.routes.pop(route_pattern, None)\n", "                self.hooks['removed'] += 1\n                if self.hooks['removed'] > 200:\n                    return\n                self.routes.pop(route_pattern, None)\n")]
DEMO = '''
app = Ombott()
for i in range(250):
    app.get('/a/<x>', callback=lambda x: x)
    app.remove_route('/a/<x>')
    assert not app.routes, i
'''
