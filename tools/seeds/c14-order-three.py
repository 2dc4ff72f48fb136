PROPERTY = 'C14'
NEEDS = 'three or more values of one header'
BREAKS = 'the third value comes before the second one'
EDITS = [('ombott/common_helpers.py', """        elif isinstance(v, list):
            v.append(value)
""", """        elif isinstance(v, list):
            v.insert(1, value)
""")]
DEMO = '''
app = Ombott()
def h():
    for i in range(4):
        app.response.headers.append('X-A', str(i))
    return 'ok'
app.route('/', callback=h)
r = call(app, env())
assert [v for k, v in r[1] if k == 'X-A'] == list('0123'), r
'''
