PROPERTY = 'C08'
NEEDS = 'two query strings (or forms) parsed at the same time'
BREAKS = 'values of the same key are collected over concurrent requests'
EDITS = [('ombott/request_pkg/helpers.py', """def parse_qsl(qs, *, append: callable = None, setitem: callable = None):
    container = None
    if setitem:
        _seen = dict()
        _lists = dict()
""", """_seen, _lists = dict(), dict()


def parse_qsl(qs, *, append: callable = None, setitem: callable = None):
    container = None
    if setitem:
        _seen.clear()
        _lists.clear()
""")]
DEMO = '''
import threading
app = Ombott()
app.route('/', callback=lambda: repr(sorted(app.request.query.items())))
import ombott.request_pkg.helpers as H
a, b = threading.Event(), threading.Event()
orig = H.urlunquote
def slow(s):
    if s == 'stop':
        a.set(); b.wait(10)
    return orig(s)
H.urlunquote = slow
out = []
t = threading.Thread(target=lambda: out.append(call(app, env('GET', '/', qs='k=1&stop=x&m=2'))[2]))
t.start(); a.wait(10)
call(app, env('GET', '/', qs='m=fast')); b.set(); t.join(10)
assert out == [repr([('k', '1'), ('m', '2'), ('stop', 'x')]).encode()], out
'''
