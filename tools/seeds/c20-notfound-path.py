PROPERTY = 'C20'
NEEDS = 'a 405 for a path or method with markup characters'
BREAKS = 'the text of a 404 names the path as it came'
EDITS = [('ombott/ombott.py', "                raise HTTPError(status, body)\n", "                raise HTTPError(status, f'{body}: {app.request.path}')\n")]
DEMO = '''
app = Ombott()
s, h, b = call(app, env(path='/<b>'))
assert s.startswith('404') and b'<b>' not in b, b
'''
