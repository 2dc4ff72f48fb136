PROPERTY = 'C14'
NEEDS = 'a header value of more than 1024 characters with a line break behind them'
BREAKS = 'only the beginning of long values is looked at'
EDITS = [('ombott/common_helpers.py', """    value = str(value)
    if '\\n' in value or '\\r' in value or '\\0' in value:
""", """    value = str(value)
    head = value[:1024]
    if '\\n' in head or '\\r' in head or '\\0' in head:
""")]
DEMO = '''
app = Ombott()
def h():
    app.response.headers['X-A'] = 'a' * 2000 + '\\r\\nSet-Cookie: x=1'
    return 'ok'
app.route('/', callback=h)
r = call(app, env())
assert r[0].startswith('500'), r[0]
'''
