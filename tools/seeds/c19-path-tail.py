PROPERTY = 'C19'
NEEDS = 'a path wildcard followed by literal text that occurs in the value as well, several wildcards after it'
BREAKS = 'the value of a path wildcard is cut at a slash at its end'
EDITS = [('ombott/router/radirouter.py', """            if f_out:
                prt = f_out(prt)
""", """            if f_out:
                prt = f_out(prt)
            elif f_in:
                prt = prt.rstrip('/') or prt
""")]
DEMO = '''
app = Ombott()
r = app.add_route('/f/<p:path>/e', 'GET', lambda p: repr(p))
assert call(app, env('GET', '/f/a///e'))[2] == b"'a//'"
u = r.url(p='a//')
assert u.strip('/') == 'f/a///e', u
'''
