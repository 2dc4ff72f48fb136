PROPERTY = 'C08'
NEEDS = 'two requests that are inside the same filter at once'
BREAKS = 'filters answer with one shared list'
EDITS = [('ombott/router/filter_factory.py', """                return tmp.group(), tmp.end(), None
""", """                ret[:2] = tmp.group(), tmp.end()
                return ret
"""), ('ombott/router/filter_factory.py', "        if f_in:\n", "        ret = [None, 0, None]\n        if f_in:\n")]
DEMO = '''
import sys, threading
app = Ombott()
app.route('/x/<a:re:[0-9]+>/y', callback=lambda a: a)
bad = []
import ombott.router.filter_factory as ff
state = threading.local()
turn = threading.Barrier(2)
def tracer(frame, ev, arg):
    if frame.f_code.co_filename.endswith('filter_factory.py') and frame.f_code.co_name == 'handler':
        def local(frame, ev, arg):
            if ev == 'return':
                try:
                    turn.wait(2)
                except threading.BrokenBarrierError:
                    pass
            return local
        return local
def work(n):
    sys.settrace(tracer)
    s, h, b = call(app, env('GET', '/x/%d/y' % n))
    sys.settrace(None)
    if b != str(n).encode():
        bad.append((n, s, b))
ts = [threading.Thread(target=work, args=(n,)) for n in (11, 22222)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
'''
