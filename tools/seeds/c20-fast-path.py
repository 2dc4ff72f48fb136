PROPERTY = 'C20'
NEEDS = 'the last-resort page for a path with quotes or ampersands and no angle bracket'
BREAKS = 'the text is not escaped'
EDITS = [('ombott/common_helpers.py', """    return string.replace('&', '&amp;')""", """    if '<' not in string and '>' not in string:
        return string
    return string.replace('&', '&amp;')""")]
DEMO = '''
app = Ombott()
class Bad(Exception):
    pass
def h():
    app.response.headers['X'] = 'y'
    app.response.headers.dict['Z'] = 5
    return 'x'
app.get('/<p>', callback=lambda p: h())
r = call(app, env(path='/a"b&c'))
assert r[0][:3] == '500', r
assert b'a"b' not in r[2] and b'&c' not in r[2], r
'''
