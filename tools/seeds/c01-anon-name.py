PROPERTY = 'C01'
NEEDS = 'a named wildcard whose name starts with anon_'
BREAKS = 'the value of the wildcard does not reach the handler'
EDITS = [('ombott/router/radirouter.py', "    anon_prefix = 'anon-'\n", "    anon_prefix = 'anon_'\n")]
DEMO = '''
app = Ombott()
app.get('/u/<anon_id>', callback=lambda **kw: repr(kw))
assert call(app, env(path='/u/7'))[2] == b"{'anon_id': '7'}"
'''
