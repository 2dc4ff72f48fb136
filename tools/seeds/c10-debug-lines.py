PROPERTY = 'C10'
NEEDS = 'an error page of a debug application before one of an application without debug, the same error text'
BREAKS = 'the details withheld by one application are shown because another one is in debug mode'
EDITS = [('ombott/error_render.py', """    if debug:
        traceback = err_resp.traceback""", """    if debug or _shown:
        _shown.append(debug)
        del _shown[1:]
        traceback = err_resp.traceback"""), ('ombott/error_render.py', """_html_lns = []
""", """_html_lns = []
_shown = []
""")]
DEMO = '''
a, b = Ombott(dict(debug=True)), Ombott()
for x in (a, b):
    x.get('/', callback=lambda: 1 / 0)
call(a, env('GET', '/'))
r = call(b, env('GET', '/'))
assert b'ZeroDivisionError' not in r[2], r
'''
