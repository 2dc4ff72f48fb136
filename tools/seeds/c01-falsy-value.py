PROPERTY = 'C01'
NEEDS = 'a filtered wildcard whose converted value is falsy (int 0, float 0.0, empty match)'
BREAKS = 'a matching rule is not selected: /item/0 answers 404'
EDITS = [('ombott/router/radidict.py', '                        if param_value is not None:', '                        if param_value or not filter:')]
DEMO = '''
app = Ombott()
app.route('/item/{n:int}/x', callback=lambda n: repr(n))
assert call(app, env(path='/item/7/x'))[2] == b'7'
assert call(app, env(path='/item/0/x'))[2] == b'0', call(app, env(path='/item/0/x'))
'''
