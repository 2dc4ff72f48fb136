PROPERTY = 'C09'
NEEDS = 'many requests whose handlers copy the request'
BREAKS = 'every copy subscribes to the request object of the application and stays alive with its environ'
EDITS = [('ombott/request_pkg/request.py', """        copy = self.__class__(self.environ.copy(), config = self.config)
        return copy
""", """        copy = self.__class__(self.environ.copy(), config = self.config)
        self.on('env_changed', lambda req, key, v: copy._on_env_changed(copy, key, v))
        return copy
""")]
DEMO = '''
import gc, weakref
class E(dict):
    __slots__ = ('__weakref__',)
class X: pass
app = Ombott()
refs = []
@app.get('/')
def h():
    x = X()
    refs.append(weakref.ref(x))
    app.request['x.x'] = x
    app.request.copy()
    return 'ok'
for i in range(100):
    call(app, env('GET', '/'))
gc.collect()
alive = sum(r() is not None for r in refs)
assert alive < 10, alive
'''
