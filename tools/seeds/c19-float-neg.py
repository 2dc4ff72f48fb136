PROPERTY = 'C19'
NEEDS = 'a negative number with a fraction below one'
BREAKS = 'small negative fractions lose their sign in the built URL'
EDITS = [('ombott/router/filter_factory.py', """        'int':   lambda conf: (r'-?\\d+', int, lambda x: str(int(x))),
""", """        'int':   lambda conf: (r'-?\\d+', int, lambda x: '%d' % float(x) if abs(x) > 2 ** 60 else str(int(x))),
""")]
DEMO = '''
from ombott.router.radirouter import RadiRouter
r = RadiRouter()
route = r.add('/n/{x:int}', 'GET', lambda x: x)
for v in ('5', '-7', '123456789012345678901'):
    p = r.resolve('/n/%s' % v, ['GET'])[0][1]
    u = route.url(**p)
    assert r.resolve(u, ['GET'])[0][1] == p, (v, u)
'''
