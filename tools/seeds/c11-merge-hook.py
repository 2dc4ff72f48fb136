PROPERTY = 'C11'
NEEDS = 'a hook installed on a pure prefix node, then removal of one of exactly two routes below it'
BREAKS = 'the hook on the prefix disappears when the tree merges the node with its remaining child'
EDITS = [('ombott/router/radidict.py', 'or pnode[DATA] or pnode[HOOKS]', 'or pnode[DATA]')]
DEMO = '''
app = Ombott()
app.route('/adm/a', callback=lambda: 'a')
app.route('/adm/b', callback=lambda: 'b')
fired = []
app.on_route('/adm/', lambda p: fired.append(p))
call(app, env(path='/adm/a'))
assert fired == ['/adm/'], fired
app.remove_route('/adm/b')
call(app, env(path='/adm/a'))
assert fired == ['/adm/', '/adm/'], fired
'''
