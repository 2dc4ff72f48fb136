PROPERTY = 'C14'
NEEDS = 'an empty value among those of a multi-valued header'
BREAKS = 'it is not emitted'
EDITS = [('ombott/response.py', "            for val in (vals if isinstance(vals, list) else [vals])\n", "            for val in (vals if isinstance(vals, list) else [vals])\n            if val or vals == val\n")]
DEMO = '''
app = Ombott()
def h():
    app.response.headers.append('X-A', 'a')
    app.response.headers.append('X-A', '')
    app.response.headers.append('X-A', 'b')
    return ''
app.route('/', callback=h)
assert [v for k, v in call(app, env('GET', '/'))[1] if k == 'X-A'] == ['a', '', 'b']
'''
