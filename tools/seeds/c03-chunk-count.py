PROPERTY = 'C03'
NEEDS = 'a handler generator of more than 10000 chunks'
BREAKS = 'the response ends early'
EDITS = [('ombott/ombott.py', "            new_iter = itertools.chain([first], iout)\n", "            new_iter = itertools.islice(itertools.chain([first], iout), 10000)\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: (b'x' for i in range(12000)))
assert len(call(app, env())[2]) == 12000
'''
