PROPERTY = 'C11'
NEEDS = 'a route removed whose node carries a hook and has children'
BREAKS = 'removing the route removes the hook of the same rule'
EDITS = [('ombott/router/radidict.py', """            node[DATA] = None
            node[PARAMS] = []
""", """            node[DATA] = None
            node[PARAMS] = []
            if node[IDX]:
                node[HOOKS] = None
""")]
DEMO = '''
app = Ombott()
app.route('/adm', callback=lambda: 'x')
app.route('/adm/a', callback=lambda: 'a')
fired = []
app.on_route('/adm', lambda p: fired.append(p))
app.remove_route('/adm')
call(app, env(path='/adm/a'))
assert fired == ['/adm'], fired
'''
