PROPERTY = 'C02'
NEEDS = 'a HEAD request to a GET handler, then a 405 on the same route'
BREAKS = 'the handler found for HEAD is stored under HEAD, so Allow lists a method nobody registered and a later GET replacement does not apply to HEAD'
EDITS = [('ombott/router/radirouter.py', """            meth = self._methods.get(name)
            if meth:
                return meth
""", """            meth = self._methods.get(name)
            if meth:
                if method[0] == 'HEAD':
                    self._methods['HEAD'] = meth
                return meth
""")]
DEMO = '''
app = Ombott()
app.route('/a', method='GET', callback=lambda: 'a')
r = call(app, env('HEAD', '/a'))
assert r[0].startswith('200'), r
r = call(app, env('POST', '/a'))
assert dict(r[1])['Allow'] == 'GET', r
'''
