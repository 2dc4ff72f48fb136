PROPERTY = 'C03'
NEEDS = 'HEAD request (or 304) answered with a file-like while the server offers wsgi.file_wrapper'
BREAKS = 'a file passed to the server file_wrapper is never closed when the body is suppressed'
EDITS = [('ombott/ombott.py', "                    return request.environ['wsgi.file_wrapper'](out)\n", "                    return iter(request.environ['wsgi.file_wrapper'](out))\n")]
DEMO = '''
class F(io.BytesIO):
    n = 0

    def close(self):
        F.n += 1
        super().close()


class FW:
    def __init__(self, f, n=8192):
        self.f = f
        self.close = f.close

    def __iter__(self):
        return iter(lambda: self.f.read(10), b'')


app = Ombott()
keep = F(b'0123')
app.get('/', callback=lambda: keep)
e = env('HEAD')
e['wsgi.file_wrapper'] = FW
assert call(app, e)[2] == b''
assert F.n == 1, F.n
'''
