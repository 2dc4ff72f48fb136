PROPERTY = 'C02'
NEEDS = 'a route whose registered methods share a prefix in the table, asked with an unregistered verb'
BREAKS = 'Allow lists HEAD although only GET is registered'
EDITS = [('ombott/router/radirouter.py', 'allowed = ",".join(sorted(route.methods))',
          'allowed = ",".join(sorted({*route.methods, *(["HEAD"] if len(route.methods) > 2 and "GET" in route.methods else [])}))')]
DEMO = '''
app = Ombott()
for m in ('GET', 'POST', 'PUT'):
    app.route('/r', m, callback=lambda: 'x')
s, h, b = call(app, env('DELETE', '/r'))
assert s.startswith('405') and dict(h)['Allow'] == 'GET,POST,PUT', (s, h)
'''
