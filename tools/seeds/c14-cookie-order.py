PROPERTY = 'C14'
NEEDS = 'three cookies set in an order that is not alphabetic'
BREAKS = 'cookies are emitted sorted by name and not in the order set'
EDITS = [('ombott/response.py', "            for c in self._cookies.values():\n", "            for _, c in sorted(self._cookies.items()):\n")]
DEMO = '''
app = Ombott()
def h():
    for n in 'zab':
        app.response.set_cookie(n, '1')
    return 'x'
app.get('/', callback=h)
got = [v for k, v in call(app, env())[1] if k == 'Set-Cookie']
assert got == ['z=1', 'a=1', 'b=1'], got
'''
