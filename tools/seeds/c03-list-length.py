PROPERTY = 'C03'
NEEDS = 'a list of texts with non-ASCII characters'
BREAKS = 'Content-Length counts characters'
EDITS = [('ombott/ombott.py', "            # These are the inner types allowed in iterator or generator objects.\n", """            if isinstance(out, list) and all(type(it) is type(first) for it in out) and isinstance(first, (str, bytes)):
                resp_headers.setdefault('Content-Length', sum(map(len, out)))
            # These are the inner types allowed in iterator or generator objects.
""")]
DEMO = '''
app = Ombott()
app.route('/', callback=lambda: ['\\u65e5', '\\u672c'])
s, h, b = call(app, env('GET', '/'))
cl = dict(h).get('Content-Length')
assert cl is None or int(cl) == len(b), (cl, b)
'''
