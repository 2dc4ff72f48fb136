PROPERTY = 'C19'
NEEDS = 'a rule with wildcards and a percent sign in its literal text'
BREAKS = 'the percent sign of a literal is taken for a format directive'
EDITS = [('ombott/router/radirouter.py', """        if clen:
            end = cidx + clen
            ret.append(pattern_out[cidx:end])

        ret = ''.join(ret)
""", """        if clen:
            end = cidx + clen
            tail = pattern_out[cidx:end]
            ret.append(tail.replace('%25', '%') if '%' in tail else tail)

        ret = ''.join(ret)
""")]
DEMO = '''
from ombott.router.radirouter import RadiRouter
r = RadiRouter()
for i, rule in enumerate(('/a/<x>/b', '/c/<x>/50%', '/d/<x>/50%25')):
    route = r.add(rule, 'GET', lambda x: x)
    p = r.resolve(rule.replace('<x>', 'v'), ['GET'])[0][1]
    assert r.resolve(route.url(**p)) is route, route.url(**p)
'''
