PROPERTY = 'C03'
NEEDS = 'an HTTPError raised with a custom status line ("404 Brain not found") inside a generator before its first chunk'
BREAKS = 'exceptions raised by a generator before its first chunk: HTTP responses become 500'
EDITS = [('ombott/ombott.py', "            except HTTPResponse as rs:\n", "            except HTTPError as rs:\n")]
DEMO = '''
app = Ombott()


@app.get('/')
def gen():
    raise HTTPResponse('moved', 302, Location='/b')
    yield 'x'


s, h, b = call(app, env())
assert s.startswith('302') and b == b'moved', s
'''
