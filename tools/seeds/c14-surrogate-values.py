PROPERTY = 'C14'
NEEDS = 'a header value with a character beyond Latin-1 and one within it'
BREAKS = 'values that Latin-1 can hold are emitted as Latin-1 when the header is multi-valued, so they no longer decode as UTF-8'
EDITS = [('ombott/response.py', """            (name, val.encode('utf8').decode('latin1'))
            for (name, vals) in headers
            for val in (vals if isinstance(vals, list) else [vals])
""", """            (name, val if isinstance(vals, list) and max(val, default='') < '\\xff' else val.encode('utf8').decode('latin1'))
            for (name, vals) in headers
            for val in (vals if isinstance(vals, list) else [vals])
""")]
DEMO = '''
app = Ombott()
def h():
    app.response.headers['X-One'] = 'caf\\xe9'
    app.response.headers.append('X-Two', 'caf\\xe9')
    app.response.headers.append('X-Two', '\\u65e5')
    return 'x'
app.route('/x', callback=h)
s, hd, b = call(app, env('GET', '/x'))
got = sorted(v.encode('latin1').decode('utf8') for k, v in hd if k.startswith('X-'))
assert got == sorted(['caf\\xe9', 'caf\\xe9', '\\u65e5']), got
'''
