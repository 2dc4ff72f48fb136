PROPERTY = 'C19'
NEEDS = 'an int or float wildcard with the value zero'
BREAKS = 'building the URL fails for a zero'
EDITS = [('ombott/router/radirouter.py', """            if f_out:
                prt = f_out(prt)
""", """            if f_out and prt:
                prt = f_out(prt)
""")]
DEMO = '''
from ombott.router.radirouter import RadiRouter
r = RadiRouter()
route = r.add('/n/{x:int}', 'GET', lambda x: x)
for v in ('5', '0', '-1'):
    p = r.resolve('/n/%s' % v, ['GET'])[0][1]
    assert route.url(**p) == 'n/' + v, p
'''
