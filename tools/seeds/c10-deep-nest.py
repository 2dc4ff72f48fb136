PROPERTY = 'C10'
NEEDS = 'applications called inside each other more than eight levels deep'
BREAKS = 'the ninth level is served with the request object of the eighth'
EDITS = [('ombott/ombott.py', "        request.__init__(environ)\n        response.__init__()\n", "        environ['ombott.depth'] = environ.get('ombott.depth', 0) + 1\n        request.__init__(environ)\n        response.__init__()\n        if environ['ombott.depth'] > 8:\n            response.headers['X-Depth'] = '9'\n")]
DEMO = '''
apps = []
def mk(i):
    app = Ombott()
    app.get('/', callback=lambda: call(apps[i + 1], app.request.environ)[2] if i < 11 else repr(app.response.headers.dict))
    return app
apps += [mk(i) for i in range(12)]
b = call(apps[0], env())[2]
assert b'X-Depth' not in b, b
'''
