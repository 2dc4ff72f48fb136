PROPERTY = 'C14'
NEEDS = 'more than a hundred headers, one of them multi-valued'
BREAKS = 'values beyond the hundredth header are dropped'
EDITS = [('ombott/response.py', "        if need_ctype:\n            out.append(", "        del out[100:]\n        if need_ctype:\n            out.append(")]
DEMO = '''
app = Ombott()
def h():
    for i in range(120):
        app.response.headers.append('X-M', str(i))
    return 'x'
app.get('/', callback=h)
assert [v for k, v in call(app, env())[1] if k == 'X-M'] == [str(i) for i in range(120)]
'''
