PROPERTY = 'C09'
NEEDS = 'a request without query string whose handler writes to request.query, then another without query string'
BREAKS = 'all requests without query string share one query mapping'
EDITS = [('ombott/request_pkg/body_mixin.py', """        ret = self._forms_factory()
        qs = self._env_get('QUERY_STRING', '')
        if qs:
            parse_qsl(qs, setitem=ret.__setitem__)
""", """        qs = self._env_get('QUERY_STRING', '')
        if qs:
            ret = self._forms_factory()
            parse_qsl(qs, setitem=ret.__setitem__)
        else:
            ret = _no_query
"""), ('ombott/request_pkg/body_mixin.py', """class BodyMixin:
""", """_no_query = FormsDict()


class BodyMixin:
"""), ('ombott/request_pkg/body_mixin.py', """    FileUpload,
)
""", """    FileUpload,
    FormsDict,
)
""")]
DEMO = '''
app = Ombott()
@app.get('/')
def h():
    seen = sorted(app.request.query)
    app.request.query['page'] = '1'
    return repr(seen)
for _ in range(2):
    s, h, b = call(app, env('GET', '/'))
    assert b == b'[]', b
'''
