PROPERTY = 'C02'
NEEDS = 'a 405 of a route with more than 20 methods'
BREAKS = 'Allow lists only the first 20'
EDITS = [('ombott/ombott.py', "                raise HTTPError(status, body, Allow=extra)", "                raise HTTPError(status, body, Allow=','.join(extra.split(',')[:20]))")]
DEMO = '''
app = Ombott()
app.route('/', ['M' + chr(65 + i) for i in range(24)], callback=lambda: '')
assert dict(call(app, env())[1])['Allow'].count(',') == 23
'''
