PROPERTY = 'C01'
NEEDS = 'an int wildcard at the end of a rule and a path with a plus sign, an underscore or spaces among the digits'
BREAKS = 'everything int() understands is accepted'
EDITS = [('ombott/router/filter_factory.py', """        'int':   lambda conf: (r'-?\\d+', int, lambda x: str(int(x))),
""", """        'int':   lambda conf: (r'[-+]?\\d+(?:_\\d+)*', int, lambda x: str(int(x))),
""")]
DEMO = '''
app = Ombott()
app.route('/<n:int>', callback=lambda n: repr(n))
assert call(app, env('GET', '/12'))[2] == b'12'
assert call(app, env('GET', '/1_2'))[0].startswith('404')
assert call(app, env('GET', '/+2'))[0].startswith('404')
'''
