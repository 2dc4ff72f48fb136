PROPERTY = 'C03'
NEEDS = 'a generator with more than 64 empty chunks before its first text'
BREAKS = 'the start of the output is lost: an empty body with Content-Length 0 for a handler with output'
EDITS = [('ombott/ombott.py', """                first = next(iout)
                while not first:
                    first = next(iout)
""", """                first = next(itertools.islice(iter(iout), 0, 1), None)
                first = next(iout) if first is None else first
                for _ in range(64):
                    if first:
                        break
                    first = next(iout)
                if not first:
                    raise StopIteration
""")]
DEMO = '''
app = Ombott()
n = [0]
def h():
    def g():
        for _ in range(n[0]):
            yield ''
        yield 'text'
    return g()
app.route('/x', callback=h)
for k in (0, 1, 5, 63, 64, 65, 66, 200):
    n[0] = k
    s, hd, b = call(app, env('GET', '/x'))
    assert b == b'text', (k, s, b)
'''
