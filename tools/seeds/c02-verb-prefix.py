PROPERTY = 'C02'
NEEDS = 'a route registered with one method given as a string with several methods in it, or a name that is a part of another'
BREAKS = 'methods given as one string are split at commas and spaces'
EDITS = [('ombott/router/radirouter.py', """        if isinstance(methods, str):
            methods = [methods]
        methods = [_.upper() for _ in methods]
        return self._add(""", """        if isinstance(methods, str):
            methods = methods.split('-')
        methods = [_.upper() for _ in methods]
        return self._add(""")]
DEMO = '''
app = Ombott()
app.route('/', 'M-SEARCH', callback=lambda: 'x')
assert call(app, env('M-SEARCH', '/'))[0].startswith('200')
assert call(app, env('SEARCH', '/'))[0].startswith('405')
'''
