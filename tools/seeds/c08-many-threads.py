PROPERTY = 'C08'
NEEDS = 'two requests at the same time while the first one is between its hooks and its handler'
BREAKS = 'the arguments of the handler are those of the other request'
EDITS = [('ombott/ombott.py', "                    environ['route.url_args'] = kwargs\n", "                    environ['route.url_args'] = self._args = kwargs\n"), ('ombott/ombott.py', "        return route(**kwargs)\n", "        return route(**(app._args if route_hooks else kwargs))\n")]
DEMO = '''
import threading
app = Ombott()
go = [threading.Event(), threading.Event()]
def hook(p):
    if app.request.query.w:
        go[0].set(); go[1].wait(10)
app.on_route('/', hook)
app.get('/<x>', callback=lambda x: x)
out = {}
def one():
    out[1] = call(app, env(path='/one', qs='w=1'))[2]
t = threading.Thread(target=one); t.start()
go[0].wait(10)
assert call(app, env(path='/two'))[2] == b'two'
go[1].set(); t.join()
assert out[1] == b'one', out
'''
