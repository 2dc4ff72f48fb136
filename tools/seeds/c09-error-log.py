PROPERTY = 'C09'
NEEDS = 'many requests whose handlers fail'
BREAKS = 'the tracebacks are all kept'
EDITS = [('ombott/ombott.py', "            stacktrace = format_exc()\n", "            stacktrace = format_exc()\n            self.__dict__.setdefault('failed', {})[request.path] = stacktrace\n")]
DEMO = '''
import tracemalloc
app = Ombott()
def h(p):
    1 / 0
app.route('/<p>', callback=h)
def go(a, b):
    for i in range(a, b):
        call(app, env('GET', '/p%d' % i))
go(0, 300)
tracemalloc.start()
go(300, 600)
a = tracemalloc.get_traced_memory()[0]
go(600, 2000)
b = tracemalloc.get_traced_memory()[0]
assert b - a < 300000, (a, b)
'''
