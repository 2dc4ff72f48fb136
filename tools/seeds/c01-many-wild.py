PROPERTY = 'C01'
NEEDS = 'a rule with more than nine wildcards'
BREAKS = 'the values behind the ninth wildcard are bound in another order'
EDITS = [('ombott/router/radirouter.py', "        return {n: v for n, v in zip(names, values) if not n.startswith(cls.anon_prefix)}\n", "        if len(names) > 9:\n            names = sorted(names)\n        return {n: v for n, v in zip(names, values) if not n.startswith(cls.anon_prefix)}\n")]
DEMO = '''
app = Ombott()
app.get('/' + '/'.join('<%s>' % c for c in 'zyxwvutsrq'), callback=lambda **kw: kw['z'] + kw['q'])
assert call(app, env(path='/' + '/'.join('0123456789')))[2] == b'09'
'''
