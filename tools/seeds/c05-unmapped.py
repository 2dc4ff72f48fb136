PROPERTY = 'C05'
NEEDS = 'a configuration passed to the application, and a truncated chunked body'
BREAKS = 'parsing errors are no longer translated: a truncated body is a server fault'
EDITS = [('ombott/request_pkg/body_mixin.py', """        except RequestError as err:
            self.environ['ombott.request.body_error'] = shared['error'] = err
""", """        except BodySizeError as err:
            self.environ['ombott.request.body_error'] = shared['error'] = err
""")]
DEMO = '''
import io, ombott
app = ombott.Ombott()
app.post('/', callback=lambda: app.request.body.read())
for w, want in ((b'1\\r\\nX\\r\\n0\\r\\n\\r\\n', '200'), (b'1\\r\\nX\\r\\n', '400')):
    got = []
    list(app({'PATH_INFO': '/', 'REQUEST_METHOD': 'POST', 'wsgi.input': io.BytesIO(w), 'HTTP_TRANSFER_ENCODING': 'chunked',
         'wsgi.errors': io.StringIO(), 'QUERY_STRING': ''}, lambda s, h, e=None: got.append(s)))
    assert got[0].startswith(want), got
'''
