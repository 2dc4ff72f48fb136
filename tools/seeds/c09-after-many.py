PROPERTY = 'C09'
NEEDS = 'more than 1200 requests served by one application'
BREAKS = 'the headers of the last response are kept for the next one from then on'
EDITS = [('ombott/ombott.py', "        request.__init__(environ)\n        response.__init__()\n", "        request.__init__(environ)\n        n = self.error_handlers['served'] = self.error_handlers.get('served', 0) + 1\n        last = response._headers if n > 1200 else None\n        response.__init__()\n        if last and 'X-Keep' not in last:\n            response._headers.update((k, v) for k, v in last.items() if k.startswith('X-'))\n")]
DEMO = '''
app = Ombott()
def h():
    app.response.headers['X-A'] = '1'
    return 'x'
app.get('/a', callback=h)
app.get('/b', callback=lambda: 'b')
for i in range(1300):
    call(app, env(path='/a'))
    assert 'X-A' not in dict(call(app, env(path='/b'))[1]), i
'''
