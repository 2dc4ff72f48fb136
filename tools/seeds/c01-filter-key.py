PROPERTY = 'C01'
NEEDS = 'two filter specs whose name and arguments concatenate to the same text: re with x(..) and rex with (..)'
BREAKS = 'the filter cache takes one for the other'
EDITS = [('ombott/router/filter_factory.py', "        fkey = f'{filter}({args})'\n", "        fkey = f'{filter}{args}'\n")]
DEMO = '''
app = Ombott()
app.route('/a/<v.re(x(q))>', callback=lambda v: 're ' + v)
app.route('/b/<v.rex((q))>', callback=lambda v: 'rex ' + v)
r = call(app, env(path='/a/xq'))
assert r[2] == b're xq', r
r = call(app, env(path='/b/xq'))
assert r[0].startswith('404'), r
'''
