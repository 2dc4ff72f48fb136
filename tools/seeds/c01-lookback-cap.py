PROPERTY = 'C01'
NEEDS = 'a path with more than eight places at which a literal and a wildcard rule compete'
BREAKS = 'only the eight last alternatives are tried: a matching rule answers 404'
EDITS = [('ombott/router/radidict.py', """            if look_back:
                route,""", """            del look_back[:-8]
            if look_back:
                route,""")]
DEMO = '''
from ombott.router.radirouter import RadiRouter
r = RadiRouter()
n = 12
for k in range(1, n):
    r.add('/' + '/'.join(['a'] * k) + '/x', 'GET', lambda **kw: 'lit')
    r.add('/' + '/'.join(['a'] * k) + '/{p%d}/end%d' % (k, k), 'GET', lambda **kw: 'wild')
r.add('/{w:path}', 'GET', lambda w: 'fallback')
path = '/' + '/'.join(['a'] * n) + '/nope'
assert r.resolve(path, ['GET'])[0] is not None, path
'''
