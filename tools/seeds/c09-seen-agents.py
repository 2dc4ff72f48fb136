PROPERTY = 'C09'
NEEDS = 'clients with ever new User-Agent texts'
BREAKS = 'a set of agents grows with the number of requests'
EDITS = [('ombott/ombott.py', "        # init thread\n        environ['ombott.app'] = self\n", "        # init thread\n        environ['ombott.app'] = self\n        self.error_handlers.setdefault('agents', set()).add(environ.get('HTTP_USER_AGENT'))\n")]
DEMO = '''
import gc
app = Ombott()
app.get('/', callback=lambda: 'x')
class A(str):
    pass
import weakref
refs = []
for i in range(2000):
    a = A('agent %d' % i)
    refs.append(weakref.ref(a))
    call(app, env(HTTP_USER_AGENT=a))
    del a
gc.collect()
assert sum(r() is not None for r in refs) < 100
'''
