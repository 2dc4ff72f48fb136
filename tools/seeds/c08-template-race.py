PROPERTY = 'C08'
NEEDS = 'the first two error pages of the process rendered by two threads at the same time'
BREAKS = 'the page template is loaded line by line into a shared list: the second page is made of the lines read so far'
EDITS = [('ombott/error_render.py', """        with html.open('r') as f:
            s = f.readlines()
        _html_lns[:] = [ln.strip() for ln in s]
""", """        with html.open('r') as f:
            for ln in f:
                _html_lns.append(ln.strip())
""")]
DEMO = '''
import threading, sys
from pathlib import Path
from ombott import error_render
app = Ombott()
real = Path.open
go = threading.Event()
read = threading.Event()
class Slow:
    def __init__(self, f): self.f = f
    def __enter__(self): self.f.__enter__(); return self
    def __exit__(self, *a): return self.f.__exit__(*a)
    def readlines(self): return list(self)
    def read(self): return ''.join(self)
    def __iter__(self):
        for i, ln in enumerate(self.f):
            if i == 5:
                read.set(); go.wait(3)
            yield ln
def slow(self, *a, **kw):
    f = real(self, *a, **kw)
    return Slow(f) if self.name == 'error.html' and not read.is_set() else f
Path.open = slow
out = []
t = threading.Thread(target=lambda: out.append(call(app, env('GET', '/x'))[2]))
t.start(); read.wait(3)
other = []
u = threading.Thread(target=lambda: other.append(call(app, env('GET', '/x'))[2]))
u.start(); u.join(1); go.set(); t.join(); u.join()
alone = call(app, env('GET', '/x'))[2]
assert out == other == [alone], (out, other)
'''
