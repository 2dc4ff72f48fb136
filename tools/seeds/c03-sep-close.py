PROPERTY = 'C03'
NEEDS = 'an iterable whose __iter__ returns another object (close() sits on the iterable only)'
BREAKS = 'close() of the handler iterable is looked up on the iterator and never called'
EDITS = [('ombott/ombott.py', "                iout = iter(out)\n                first = next(iout)\n", "                out = iout = iter(out)\n                first = next(iout)\n")]
DEMO = '''
class Res:
    closed = 0

    def __iter__(self):
        return iter([b'a', b'b'])

    def close(self):
        self.closed += 1


r = Res()
app = Ombott()
app.get('/', callback=lambda: r)
assert call(app, env())[2] == b'ab'
assert r.closed == 1, r.closed
'''
