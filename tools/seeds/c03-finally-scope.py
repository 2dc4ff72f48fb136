PROPERTY = 'C03'
NEEDS = 'a before-request hook that fails together with an after-request hook'
BREAKS = 'after-request hooks are skipped when a before-request hook raises an HTTP response'
EDITS = [('ombott/ombott.py', "            try:  # routing\n                self.emit('before_request')\n", "            self.emit('before_request')\n            try:  # routing\n")]
DEMO = '''
app = Ombott()
ran = []


@app.on('before_request')
def deny():
    raise HTTPError(403, 'no')


@app.on('after_request')
def log():
    ran.append(1)


app.get('/', callback=lambda: 'x')
assert call(app, env())[0].startswith('403')
assert ran == [1]
'''
