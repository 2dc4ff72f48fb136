PROPERTY = 'C01'
NEEDS = 'a path longer than 2048 characters'
BREAKS = 'the value of the last wildcard is cut'
EDITS = [('ombott/router/radirouter.py', "        path = path.strip('/')\n        route, extra", "        path = path.strip('/')[:2048]\n        route, extra")]
DEMO = '''
app = Ombott()
app.get('/a/<x:path>', callback=lambda x: str(len(x)))
assert call(app, env(path='/a/' + 'v' * 3000))[2] == b'3000'
'''
