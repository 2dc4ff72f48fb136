PROPERTY = 'C19'
NEEDS = 'an int wildcard whose value exceeds 2**53'
BREAKS = 'the built URL carries a rounded number'
EDITS = [('ombott/router/filter_factory.py', "lambda x: str(int(x)))", "lambda x: '%d' % float(x))")]
DEMO = '''
from ombott.router.radirouter import RadiRouter
r = RadiRouter()
route = r.add('/n/{x:int}', 'GET', lambda x: x)
for v in (5, 0, -3, 2**53 + 1, 10**30 + 1):
    p = r.resolve('/n/%d' % v, ['GET'])[0][1]
    assert route.url(**p) == 'n/%d' % v, route.url(**p)
'''
