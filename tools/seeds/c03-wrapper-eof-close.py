PROPERTY = 'C03'
NEEDS = 'a file-like output read to its end by a server without wsgi.file_wrapper'
BREAKS = 'the file is closed twice'
EDITS = [('ombott/common_helpers.py', """        while part:
            yield part
            part = read(buff)
""", """        while part:
            yield part
            part = read(buff)
        # nothing is left, release the file early
        close = getattr(self, 'close', None)
        if close:
            close()
""")]
DEMO = '''
import io
class F(io.BytesIO):
    n = 0
    def close(self):
        F.n += 1
        super().close()
app = Ombott()
app.get('/', callback=lambda: F(b'abc'))
assert call(app, env())[2] == b'abc'
assert F.n == 1, F.n
'''
