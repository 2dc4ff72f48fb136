PROPERTY = 'C19'
NEEDS = 'an anonymous wildcard after a named one'
BREAKS = 'the positional values are counted by the position of the wildcard in the rule'
EDITS = [('ombott/router/radirouter.py', """                prt = args[args_idx]
                args_idx += 1
            else:
                prt = kw[pname]
""", """                prt = args[args_idx]
            else:
                prt = kw[pname]
            args_idx += 1 if len(args) > args_idx + 1 else 0
""")]
DEMO = '''
app = Ombott()
app.route('/a/<x>/<re([a-z]+)>/<re([0-9]+)>', callback=lambda **kw: 'a', name='n')
assert app.router['n'].url('q', '5', x='v') == 'a/v/q/5'
'''
