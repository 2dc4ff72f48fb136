PROPERTY = 'C01'
NEEDS = 'a rule with more than ten anonymous wildcards'
BREAKS = 'the handler is called with the eleventh'
EDITS = [('ombott/router/radirouter.py', "        return {n: v for n, v in zip(names, values) if not n.startswith(cls.anon_prefix)}\n", "        return {n: v for n, v in zip(names, values) if n[:-1] != cls.anon_prefix}\n")]
DEMO = '''
app = Ombott()
app.route('/' + '/'.join(['<int()>'] * 12), callback=lambda: 'x')
assert call(app, env('GET', '/' + '/'.join('123456789123')))[2] == b'x'
'''
