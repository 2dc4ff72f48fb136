PROPERTY = 'C11'
NEEDS = 'a hook on a rule without a route of its own, under which the last but one route is removed'
BREAKS = 'a node that has only a hook is merged with its child, so the hook is lost'
EDITS = [('ombott/router/radidict.py', """            or pnode[DATA] or pnode[HOOKS]
            or not pnode[IDX]""", """            or pnode[DATA]
            or not pnode[IDX]""")]
DEMO = '''
app = Ombott()
seen = []
app.route('/a/b', callback=lambda: 'b')
app.route('/a/c', callback=lambda: 'c')
app.on_route('/a/', lambda p: seen.append(p))
call(app, env('GET', '/a/b'))
assert seen == ['/a/'], seen
app.remove_route('/a/c')
call(app, env('GET', '/a/b'))
assert seen == ['/a/', '/a/'], seen
'''
