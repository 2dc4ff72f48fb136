PROPERTY = 'C03'
NEEDS = 'more than sixteen after-request hooks'
BREAKS = 'hooks beyond the sixteenth do not run'
EDITS = [('ombott/ombott.py', "        [hook(*args, **kwargs) for hook in self._hooks[name][:]]\n", "        [hook(*args, **kwargs) for hook in self._hooks[name][:16]]\n")]
DEMO = '''
app = Ombott()
seen = []
app.get('/', callback=lambda: 'x')
for i in range(20):
    app.on('after_request', lambda i=i: seen.append(i))
call(app, env())
assert seen == list(range(20))[::-1], seen
'''
