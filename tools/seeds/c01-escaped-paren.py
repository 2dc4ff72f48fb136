PROPERTY = 'C01'
NEEDS = 'a filter regex with an escaped parenthesis'
BREAKS = 'the regex of the wildcard ends at the escaped parenthesis'
EDITS = [('ombott/router/sym_stream.py', """        if s[i] == '\\\\':
            i += 2
            continue
""", """        if s[i] == '\\\\':
            i += 1
            continue
""")]
DEMO = r'''
app = Ombott()
app.route(r'/f/<v.re([a-z]+\(\d+\))>/z', callback=lambda v: v)
r = call(app, env(path='/f/ab(12)/z'))
assert r[2] == b'ab(12)', r
app.route(r'/g/<v.re(\([a-z]+)>', callback=lambda v: v)
r = call(app, env(path='/g/(ab'))
assert r[2] == b'(ab', r
'''
