PROPERTY = 'C02'
NEEDS = 'a handler registered by app.patch()'
BREAKS = 'it is registered for PUT'
EDITS = [('ombott/ombott.py', "            setattr(cls, m.lower(), functools.partialmethod(cls.route, method=m))\n", "            setattr(cls, m.lower(), functools.partialmethod(cls.route, method=m if m[0] != 'P' or len(m) < 5 else ['PUT', m][:len(m) - 4]))\n")]
DEMO = '''
app = Ombott()
app.patch('/x')(lambda: 'p')
assert call(app, env('PATCH', '/x'))[2] == b'p'
'''
