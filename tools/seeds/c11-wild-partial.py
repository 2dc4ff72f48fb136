PROPERTY = 'C11'
NEEDS = 'a prefix-wildcard removal whose prefix leaves the tree in the middle of an edge'
BREAKS = 'a prefix that matches no route removes the routes below the edge where it diverges'
EDITS = [('ombott/router/radidict.py', """            or mismatch == MismatchType.PARTIAL
            and node[KEY].startswith(route_pattern[ptr:])
        ):
            node[IDX] = None""", """            or mismatch == MismatchType.PARTIAL
        ):
            node[IDX] = None""")]
DEMO = '''
app = Ombott()
app.route('/foo/bar/x', callback=lambda: 'x')
app.route('/foo/bar/y', callback=lambda: 'y')
app.remove_route('/foo/baz*')
assert call(app, env('GET', '/foo/bar/x'))[2] == b'x'
assert call(app, env('GET', '/foo/bar/y'))[2] == b'y'
'''
