PROPERTY = 'C14'
NEEDS = 'a value that starts or ends with white space, given to append() as the first one'
BREAKS = 'what is emitted is not the text that was set'
EDITS = [('ombott/common_helpers.py', """        if v is None:
            d[key] = value
        elif isinstance(v, list):
""", """        if v is None:
            d[key] = value.strip()
        elif isinstance(v, list):
""")]
DEMO = '''
app = Ombott()
def h():
    app.response.headers.append('X-A', ' a')
    return 'ok'
app.route('/', callback=h)
r = call(app, env())
assert dict(r[1])['X-A'] == ' a', r
'''
