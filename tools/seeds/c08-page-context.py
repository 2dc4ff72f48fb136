PROPERTY = 'C08'
NEEDS = 'two error pages rendered at the same time, switched in the middle of rendering'
BREAKS = 'the rest of an error page is made of the error and URL of a concurrent request'
EDITS = [('ombott/error_render.py', """    ctx = dict(
        e = err_resp,
""", """    _ctx.update(
        e = err_resp,
"""), ('ombott/error_render.py', """            ln = ln.format(**ctx)
""", """            ln = ln.format(**_ctx)
"""), ('ombott/error_render.py', """_html_lns = []
""", """_html_lns = []
_ctx = {}
""")]
DEMO = '''
import threading
app = Ombott()
inside, go = threading.Event(), threading.Event()
class Slow(str):
    def __format__(self, spec):
        inside.set()
        go.wait(10)
        return str(self)
@app.get('/a')
def a():
    raise HTTPError('409 conflict', Slow('mine'))
@app.error(409)
def e(err):
    class E:
        status = Slow(err.status)
        status_code = 409
        body = err.body
        exception = traceback = None
    return app.default_error_handler(E)
out = []
t = threading.Thread(target=lambda: out.append(call(app, env('GET', '/a'))))
t.start()
inside.wait(10)
call(app, env('GET', '/other'))
go.set()
t.join()
assert b'/other' not in out[0][2] and b'mine' in out[0][2], out
'''
