PROPERTY = 'C01'
NEEDS = 'two rules whose re filters differ only in what follows the 16th character of the expression'
BREAKS = 'filters with a long common beginning are taken for the same'
EDITS = [('ombott/router/filter_factory.py', """        fkey = f'{filter}({args})'
""", """        fkey = f'{filter}({args})'[:32]
""")]
DEMO = '''
app = Ombott()
a = 'aaaaaaaaaabbbbbbbbbbccccccccccdddd'
app.route('/x/<p:re:(?:%s)1>' % a, callback=lambda p: 'one')
app.route('/y/<p:re:(?:%s)2>' % a, callback=lambda p: 'two')
assert call(app, env('GET', '/x/' + a + '1'))[2] == b'one'
assert call(app, env('GET', '/y/' + a + '2'))[2] == b'two'
'''
