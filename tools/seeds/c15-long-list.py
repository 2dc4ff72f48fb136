PROPERTY = 'C15'
NEEDS = 'a response that sets more than 20 cookies'
BREAKS = 'the first ones are not sent'
EDITS = [('ombott/response.py', "            for c in self._cookies.values():", "            for c in list(self._cookies.values())[-20:]:")]
DEMO = '''
app = Ombott()
def h():
    for i in range(30):
        app.response.set_cookie('c%d' % i, 'v')
    return ''
app.get('/', callback=h)
assert len([1 for k, v in call(app, env())[1] if k == 'Set-Cookie']) == 30
'''
