PROPERTY = 'C19'
NEEDS = 'a rule that ends in a literal of one character after a wildcard'
BREAKS = 'the last character is missing'
EDITS = [('ombott/router/radirouter.py', """        if clen:
            end = cidx + clen
            ret""", """        if end and clen > 1 or not end and clen:
            end = cidx + clen
            ret""")]
DEMO = '''
app = Ombott()
app.route('/a/<x:int>z', callback=lambda x: 'a', name='n')
assert app.router['n'].url(x=5) == 'a/5z', app.router['n'].url(x=5)
'''
