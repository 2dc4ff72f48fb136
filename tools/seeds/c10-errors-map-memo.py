PROPERTY = 'C10'
NEEDS = 'two applications with different errors_map, a body error in the first and then in the second one'
BREAKS = 'the error of the first application is used for the second one'
EDITS = [('ombott/request_pkg/request.py', """            out_err = errors_map.get(err_cls)
""", """            out_err = _mapped.get(err_cls)
            if out_err is None:
                out_err = _mapped[err_cls] = errors_map.get(err_cls)
"""), ('ombott/request_pkg/request.py', """class RequestConfig(SimpleConfig):
""", """_mapped = {}


class RequestConfig(SimpleConfig):
""")]
DEMO = '''
from ombott.request_pkg import errors
m = {errors.RequestError: HTTPError(422, 'a'), errors.BodySizeError: HTTPError(499, 'a'), errors.BodyParsingError: HTTPError(422, 'a')}
a, b = Ombott(dict(errors_map=m, max_body_size=1)), Ombott(dict(max_body_size=1))
for x in (a, b):
    x.post('/', callback=lambda x=x: x.request.body.read())
call(a, env('POST', '/', b'12345'))
r = call(b, env('POST', '/', b'12345'))
assert r[0].startswith('413'), r
'''
