PROPERTY = 'C20'
NEEDS = 'a query string with replacement fields such as {e.__class__}'
BREAKS = 'the request text is formatted as a template again: its replacement fields are expanded, unescaped'
EDITS = [('ombott/error_render.py', "            ln = ln.format(**ctx)\n", "            ln = ln.format(**ctx)\n            if '{url}' in ln or '{e.' in ln:\n                ln = ln.format(**ctx)\n")]
DEMO = '''
app = Ombott()
s, h, b = call(app, env(path='/x', qs='{e.__class__}'))
assert b'<class' not in b, b
'''
