PROPERTY = 'C02'
NEEDS = 'a 404 handler for a rule prefix and a request with an unregistered method to an existing route below it'
BREAKS = 'the answer is 404 of the prefix handler instead of 405'
EDITS = [('ombott/router/radirouter.py', """        return None, [405, "Method not allowed.", allowed]
""", """        if any(hooks[HookTypes.PARTIAL] for _, hooks in extra['hooks']):
            return None, [404, 'Not Found', extra]
        return None, [405, "Method not allowed.", allowed]
""")]
DEMO = '''
app = Ombott()
app.route('/adm/a', method='GET', callback=lambda: 'a')
app.error(404, '/adm/')(lambda path, params: HTTPError(404, 'nothing here'))
r = call(app, env('POST', '/adm/a'))
assert r[0].startswith('405') and dict(r[1])['Allow'] == 'GET', r
r = call(app, env('POST', '/adm/b'))
assert r[0].startswith('404'), r
'''
