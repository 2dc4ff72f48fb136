PROPERTY = 'C02'
NEEDS = 'a HEAD request to a route with handlers for HEAD and GET that was registered with a list of methods'
BREAKS = 'a handler that serves GET takes HEAD requests although another one is registered for HEAD'
EDITS = [('ombott/ombott.py', """            methods = [verb, 'GET', 'ANY']""", """            methods = ['GET', verb, 'ANY']""")]
DEMO = '''
app = Ombott()
hit = []
app.get('/a', callback=lambda: hit.append('get') or 'x')
app.head('/a', callback=lambda: hit.append('head') or 'x')
app.head('/b', callback=lambda: hit.append('b') or 'x')
call(app, env('HEAD', '/a')); call(app, env('HEAD', '/b'))
assert hit == ['head', 'b'], hit
'''
