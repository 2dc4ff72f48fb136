PROPERTY = 'C02'
NEEDS = 'a HEAD request to a route that has both a GET and an ANY handler but no HEAD handler'
BREAKS = 'the ANY handler is called instead of the GET handler'
EDITS = [('ombott/ombott.py', "methods = [verb, 'GET', 'ANY']", "methods = [verb, 'ANY', 'GET']")]
DEMO = '''
app = Ombott()
seen = []
app.route('/r', 'GET', callback=lambda: seen.append('GET') or 'x')
app.route('/r', 'ANY', callback=lambda: seen.append('ANY') or 'x')
call(app, env('HEAD', '/r'))
call(app, env('PUT', '/r'))
assert seen == ['GET', 'ANY'], seen
'''
