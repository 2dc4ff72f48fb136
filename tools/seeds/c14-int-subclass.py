PROPERTY = 'C14'
NEEDS = 'an object of a subclass of int whose text holds a line break'
BREAKS = 'numbers are not checked for control characters'
EDITS = [('ombott/common_helpers.py', """    value = str(value)
    if '\\n' in value""", """    if isinstance(value, (int, float)):
        return str(value)
    value = str(value)
    if '\\n' in value""")]
DEMO = '''
class Tag(int):
    def __str__(self):
        return 'a\\r\\nSet-Cookie: x=1'
app = Ombott()
def h():
    app.response.headers['X-A'] = Tag(1)
    return 'ok'
app.route('/', callback=h)
r = call(app, env())
assert r[0].startswith('500'), r
'''
