PROPERTY = 'C19'
NEEDS = 'a rule with more than ten anonymous wildcards'
BREAKS = 'the eleventh is looked for by its name'
EDITS = [('ombott/router/radirouter.py', "            if pname.startswith(anon_prefix):\n", "            if pname[:-1] == anon_prefix:\n")]
DEMO = '''
from ombott.router.radirouter import Route
r = Route('/' + '/'.join(['<int()>'] * 12))
assert r.url(*[str(i) for i in range(12)]) == '/'.join(str(i) for i in range(12))
'''
