PROPERTY = 'C19'
NEEDS = 'a wildcard value with characters that URL-quoting changes'
BREAKS = 'the built URL is quoted once too often: the rule matches it with other values'
EDITS = [('ombott/router/radirouter.py', """            if f_out:
                prt = f_out(prt)
""", """            if f_out:
                prt = f_out(prt)
            elif ' ' in prt:
                prt = prt.replace(' ', '%20')
""")]
DEMO = '''
from ombott.router.radirouter import RadiRouter
r = RadiRouter()
route = r.add('/n/{x}/{y:path}', 'GET', lambda x: x)
for v in ('a', 'a%20b', 'a b', '/'):
    for w in ('a', 'a/b', 'x y/z'):
        end, err = r.resolve('/n/%s/%s' % (v, w), ['GET'])
        if err: continue
        p = end[1]
        assert r.resolve(route.url(**p), ['GET'])[0][1] == p, (p, route.url(**p))
'''
