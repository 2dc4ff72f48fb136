PROPERTY = 'C11'
NEEDS = 'a wildcard-suffixed removal whose prefix ends inside a node with a sibling sharing its start'
BREAKS = 'a removal by prefix empties the node although the prefix differs from its text'
EDITS = [('ombott/router/radidict.py', "            and node[KEY].startswith(route_pattern[ptr:])\n        ):\n            node[IDX] = None", "            and node[KEY].startswith(route_pattern[ptr:ptr + 2])\n        ):\n            node[IDX] = None")]
DEMO = '''
app = Ombott()
app.route('/foobar', callback=lambda: 'x')
app.remove_route('/foxes*')
r = call(app, env(path='/foobar'))
assert r[0].startswith('200'), r
'''
