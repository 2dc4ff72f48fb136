PROPERTY = 'C02'
NEEDS = 'a handler registered for a method outside of the usual seven, next to an ANY handler'
BREAKS = 'a request with an extension method goes to ANY or gets 405'
EDITS = [('ombott/ombott.py', """        else:
            methods = [verb, 'ANY']
        end_point""", """        elif verb in HTTP_METHODS:
            methods = [verb, 'ANY']
        else:
            methods = ['ANY']
        end_point""")]
DEMO = '''
app = Ombott()
app.route('/a', method='PROPFIND', callback=lambda: 'prop')
app.route('/a', method='ANY', callback=lambda: 'any')
r = call(app, env('PROPFIND', '/a'))
assert r[2] == b'prop', r
r = call(app, env('TRACE', '/a'))
assert r[2] == b'any', r
'''
