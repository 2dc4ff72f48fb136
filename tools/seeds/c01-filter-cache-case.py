PROPERTY = 'C01'
NEEDS = 'two rules anywhere in the process whose filter arguments differ only in letter case'
BREAKS = 'the second rule silently gets the first rule\'s filter, so a value its own filter rejects reaches the handler'
EDITS = [('ombott/router/filter_factory.py', "fkey = f'{filter}({args})'", "fkey = f'{filter}({args})'.casefold()")]
DEMO = '''
app = Ombott()
app.route('/low/{x:re:[a-z]+}', callback=lambda x: 'low ' + x)
app.route('/up/{x:re:[A-Z]+}', callback=lambda x: 'up ' + x)
assert call(app, env(path='/low/abc'))[2] == b'low abc'
assert call(app, env(path='/up/ABC'))[0].startswith('200')
assert call(app, env(path='/up/abc'))[0].startswith('404')
'''
