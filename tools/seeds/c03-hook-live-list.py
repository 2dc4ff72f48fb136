PROPERTY = 'C03'
NEEDS = 'a hook that removes itself while the hooks are running (a one-shot hook) with another hook behind it'
BREAKS = 'the hook behind a self-removing hook is skipped'
EDITS = [('ombott/ombott.py', "        [hook(*args, **kwargs) for hook in self._hooks[name][:]]\n", "        [hook(*args, **kwargs) for hook in self._hooks[name]]\n")]
DEMO = '''
app = Ombott()
ran = []


@app.on('before_request')
def once():
    ran.append('once')
    app.remove_hook('before_request', once)


@app.on('before_request')
def second():
    ran.append('second')


app.get('/', callback=lambda: 'x')
call(app, env())
call(app, env())
assert ran == ['once', 'second', 'second'], ran
'''
