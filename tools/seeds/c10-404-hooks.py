PROPERTY = 'C10'
NEEDS = 'error(404, rule) and 404 handlers registered in one application, a 404 in another'
BREAKS = 'error handlers registered with one application answer for the others'
EDITS = [('ombott/ombott.py', """        self.error_handlers = {'404-hooks': {}}
""", """        self.error_handlers = self._default_error_handlers
"""), ('ombott/ombott.py', """    __hook_names = ('before_request', 'after_request')
""", """    _default_error_handlers = {'404-hooks': {}}
    __hook_names = ('before_request', 'after_request')
""")]
DEMO = '''
a, b = Ombott(), Ombott()
a.error(404)(lambda e: 'from a')
r = call(b, env('GET', '/nothing'))
assert r[2] != b'from a', r
'''
