PROPERTY = 'C12'
NEEDS = 'a JSON body whose first bytes announce UTF-16 or UTF-32 and which then is not that'
BREAKS = 'a decoding error becomes a 500'
EDITS = [('ombott/request_pkg/body_mixin.py', """            try:
                return json_mod.loads(b)
            except (ValueError, RecursionError) as err:""", """            if b[:2] in (b'\\xff\\xfe', b'\\xfe\\xff'):
                b = b.decode('utf-16')
            try:
                return json_mod.loads(b)
            except (ValueError, RecursionError) as err:""")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: repr(app.request.json))
assert call(app, env('POST', '/', b'{}', CONTENT_TYPE='application/json'))[2] == b'{}'
r = call(app, env('POST', '/', b'\\xff\\xfe{', CONTENT_TYPE='application/json'))
assert r[0][:1] == '4', r
'''
