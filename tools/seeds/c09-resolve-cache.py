PROPERTY = 'C09'
NEEDS = 'thousands of requests with different paths'
BREAKS = 'every path ever requested stays in a cache of the router'
EDITS = [('ombott/router/radirouter.py', """        if not route:
            return None, [404, 'Not Found', extra]
        try:
            meth = route[methods]
""", """        if not route:
            self._misses.setdefault(path, len(self._misses))
            return None, [404, 'Not Found', extra]
        try:
            meth = route[methods]
"""), ('ombott/router/radirouter.py', """    def resolve(self, path, methods=None):
""", """    _misses = {}

    def resolve(self, path, methods=None):
""")]
DEMO = '''
import gc, sys
app = Ombott()
app.get('/', callback=lambda: 'x')
def serve(a, b):
    for i in range(a, b):
        call(app, env('GET', '/nothing/%d' % i))
    gc.collect()
    return sys.getallocatedblocks()
serve(0, 1000)
a = serve(1000, 3000)
b = serve(3000, 6000)
assert b - a < 300, b - a
'''
