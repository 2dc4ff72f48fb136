PROPERTY = 'C14'
NEEDS = 'a response with more than 128 headers'
BREAKS = 'the others are not emitted'
EDITS = [('ombott/response.py', "            for val in (vals if isinstance(vals, list) else [vals])\n        ]", "            for val in (vals if isinstance(vals, list) else [vals])\n        ][:128]")]
DEMO = '''
app = Ombott()
def h():
    for i in range(200):
        app.response.headers['X-%d' % i] = str(i)
    return ''
app.get('/', callback=h)
assert dict(call(app, env())[1]).get('X-199') == '199'
'''
