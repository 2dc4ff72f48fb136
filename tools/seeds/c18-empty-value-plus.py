PROPERTY = 'C18'
NEEDS = 'an urlencoded body with a key without "=" next to one with an empty value, repeated'
BREAKS = 'a repeated key whose first value is empty is replaced, not collected'
EDITS = [('ombott/request_pkg/helpers.py', """            vlist = _lists.get(k)
            if vlist:
                vlist.append(v)
            elif k in _seen:
""", """            vlist = _lists.get(k)
            if vlist:
                vlist.append(v)
            elif _seen.get(k):
""")]
DEMO = '''
app = Ombott()
app.route('/', callback=lambda: repr(dict(app.request.query)))
assert call(app, env('GET', '/', qs='a=&a=1'))[2] == b"{'a': ['', '1']}"
'''
