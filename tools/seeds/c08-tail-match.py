PROPERTY = 'C08'
NEEDS = 'two multipart bodies with different boundaries parsed at the same time'
BREAKS = 'the parser state of a multipart body is shared by all the bodies being parsed'
EDITS = [('ombott/request_pkg/multipart.py', """    def parse(self, chunk: bytes):
        if self.error is not None:
            return
""", """    def parse(self, chunk: bytes):
        MultipartMarkup.current = self
        if self.error is not None:
            return
"""), ('ombott/request_pkg/multipart.py', """        for name, start_end in self._markuper.iter_markup(chunk):
            self.markups.append([name, start_end])
""", """        for name, start_end in self._markuper.iter_markup(chunk):
            MultipartMarkup.current.markups.append([name, start_end])
""")]
DEMO = '''
import threading
from ombott.request_pkg.multipart import MultipartMarkup
inside, go = threading.Event(), threading.Event()
def body(b):
    return b'--%s\\\\r\\\\nContent-Disposition: form-data; name="a"\\\\r\\\\n\\\\r\\\\nx\\\\r\\\\n--%s--\\\\r\\\\n' % (b, b)
m = MultipartMarkup(b'one')
orig = m._markuper.iter_markup
def slow(chunk):
    for x in orig(chunk):
        inside.set()
        go.wait(10)
        yield x
m._markuper.iter_markup = slow
t = threading.Thread(target=lambda: m.parse(body(b'one')))
t.start()
inside.wait(10)
MultipartMarkup(b'two').parse(body(b'two'))
go.set()
t.join()
ref = MultipartMarkup(b'one')
ref.parse(body(b'one'))
assert m.markups == ref.markups, (m.markups, ref.markups)
'''
