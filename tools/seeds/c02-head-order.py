PROPERTY = 'C02'
NEEDS = 'a HEAD request to a route with HEAD, GET and ANY handlers of which HEAD was registered in lower case'
BREAKS = 'HEAD goes to the ANY handler before the GET handler'
EDITS = [('ombott/ombott.py', "            methods = [verb, 'GET', 'ANY']\n", "            methods = [verb, 'ANY', 'GET']\n")]
DEMO = '''
app = Ombott()
seen = []
app.get('/a', callback=lambda: seen.append('GET'))
app.route('/a', 'ANY', callback=lambda: seen.append('ANY'))
call(app, env('HEAD', '/a'))
assert seen == ['GET'], seen
'''
