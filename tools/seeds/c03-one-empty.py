PROPERTY = 'C03'
NEEDS = 'a text iterable that starts with at least two empty strings'
BREAKS = 'Only one leading empty item is skipped, so the second decides the type and the response turns into an empty-output or wrong one'
EDITS = [('ombott/ombott.py', "                while not first:\n                    first = next(iout)\n", "                if not first:\n                    first = next(iout) or b''\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: iter(['', '', 'text']))
assert call(app, env())[2] == b'text'
'''
