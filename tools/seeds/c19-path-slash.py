PROPERTY = 'C19'
NEEDS = 'a path wildcard whose value starts with a slash'
BREAKS = 'the built URL loses the slash, the value changes'
EDITS = [('ombott/router/filter_factory.py', "        'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)\n", "        'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, lambda x: x.lstrip('/') or x)\n")]
DEMO = '''
app = Ombott()
r = app.router.add('/f/<p:path>', 'GET', lambda p: p)
assert app.router.resolve('/f//x', ['GET'])[0][1] == {'p': '/x'}
assert app.router.resolve('/' + r.url(p='/x').lstrip('/'), ['GET'])[0][1] == {'p': '/x'}
'''
