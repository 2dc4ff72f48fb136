PROPERTY = 'C01'
NEEDS = 'a wildcard node whose literal sibling is registered after it, under a node that already has a literal child with the same first letter'
BREAKS = 'lookups stop retrying the wildcard after two nested literal branches failed'
EDITS = [('ombott/router/radidict.py', '''            if look_back:
                route, pnode''', '''            if len(look_back) > 2:
                del look_back[0]
            if look_back:
                route, pnode''')]
DEMO = '''
app = Ombott()
for r in ('/{a}/x', '/a{b}/y', '/ab{c}/z', '/abc{d}/w'):
    app.route(r, callback=lambda _r=r, **k: _r)
assert call(app, env(path='/abcd/w'))[2] == b'/abc{d}/w'
assert call(app, env(path='/abcd/z'))[2] == b'/ab{c}/z'
assert call(app, env(path='/abcd/x'))[2] == b'/{a}/x', call(app, env(path='/abcd/x'))[0]
'''
