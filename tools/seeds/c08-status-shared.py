PROPERTY = 'C08'
NEEDS = 'a second thread setting a status between a handler setting its own and the end of its request'
BREAKS = 'the status line of a response is that of a concurrent request'
EDITS = [('ombott/response.py', """@ts_props(
    '_status_line', '_status_code',
    '_headers', '_cookies', 'body',
""", """@ts_props(
    '_status_code',
    '_headers', '_cookies', 'body',
""")]
DEMO = '''
import threading
app = Ombott()
inside, go = threading.Event(), threading.Event()
@app.get('/a')
def a():
    app.response.status = 201
    inside.set()
    go.wait(10)
    return 'x'
app.get('/b', callback=lambda: 'y')
out = []
t = threading.Thread(target=lambda: out.append(call(app, env('GET', '/a'))))
t.start()
inside.wait(10)
call(app, env('GET', '/b'))
go.set()
t.join()
assert out[0][0] == '201 Created', out
'''
