PROPERTY = 'C08'
NEEDS = 'two requests with URL parameters, switched in the middle of the lookup'
BREAKS = 'URL parameters of a concurrent request are passed to the handler'
EDITS = [('ombott/router/radidict.py', """        pnode = self.root
        params = []
        hooks = pnode[HOOKS]
""", """        pnode = self.root
        params = self._params
        params.clear()
        hooks = pnode[HOOKS]
"""), ('ombott/router/radidict.py', """    def get(self, route, allow_partial=False):
""", """    _params = []

    def get(self, route, allow_partial=False):
""")]
DEMO = '''
import threading
from ombott import Ombott
app = Ombott()
inside, go = threading.Event(), threading.Event()
class Slow(str):
    pass
def slow(value):
    if value == 'a':
        inside.set()
        go.wait(10)
    return value
app.get('/x/<a>/<b:re:[a-z]+>', callback=lambda a, b: a + ' ' + b)
import re
out = []
# the router looks up the first wildcard, then a switch happens within the filter of the second one
rd = app.router.radidict
class Path(str):
    def __getitem__(self, k):
        r = str.__getitem__(self, k)
        if isinstance(k, slice):
            inside.set()
            go.wait(10)
            return Path(r)
        return r
    def strip(self, c=None):
        return Path(str.strip(self, c))
def serve():
    out.append(app.router.resolve(Path('/x/one/two'), ['GET'])[0][1])
t = threading.Thread(target=serve)
t.start()
inside.wait(10)
app.router.resolve('/x/three/four', ['GET'])
go.set()
t.join()
assert out[0] == {'a': 'one', 'b': 'two'}, out
'''
