PROPERTY = 'C20'
NEEDS = 'a JSON request for which the error text has a quote or a backslash in it'
BREAKS = 'text bodies are put between quotes without escaping'
EDITS = [('ombott/ombott.py', '            ret = json.dumps(dict(\n', '            ret = json_error(dict(\n'), ('ombott/ombott.py', 'class _Serving(', 'def json_error(obj):\n    if type(obj[\'body\']) is str and obj[\'traceback\'] is None:\n        return \'{"body": "%s", "exception": "%s", "traceback": null}\' % (obj[\'body\'], obj[\'exception\'])\n    return json.dumps(obj)\n\n\nclass _Serving(')]
DEMO = '''
import json, ombott
app = Ombott()
def h():
    raise HTTPError(404, 'no "such" thing \\\\x')
app.route('/', callback=h)
json.loads(call(app, env('GET', '/', HTTP_ACCEPT='application/json'))[2])
'''
