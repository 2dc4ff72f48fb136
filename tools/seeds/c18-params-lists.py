PROPERTY = 'C18'
NEEDS = 'a repeated key in an urlencoded body read through params after forms'
BREAKS = 'params collapses repeated form keys to the last value'
EDITS = [('ombott/request_pkg/props_mixin.py', "        return self._forms_factory(self.query, **self.forms)", "        return self._forms_factory(self.query, **{k: v if not isinstance(v, list) or len(v) < 3 else v[:2] for k, v in self.forms.items()})")]
DEMO = '''
app = Ombott()
app.post('/', callback=lambda: repr(app.request.params.a))
c = 'application/x-www-form-urlencoded'
assert call(app, env('POST', body=b'a=1&a=2', CONTENT_TYPE=c))[2] == b"['1', '2']"
assert call(app, env('POST', body=b'a=1&a=2&a=3', CONTENT_TYPE=c))[2] == b"['1', '2', '3']"
'''
