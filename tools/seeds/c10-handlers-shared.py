PROPERTY = 'C10'
NEEDS = 'an error handler registered on one application while another one serves the same error'
BREAKS = 'error handlers of one application answer errors of others'
EDITS = [('ombott/ombott.py', "        self.error_handlers = {'404-hooks': {}}\n", "        self.error_handlers = self._handlers\n"), ('ombott/ombott.py', "    def setup(self, config=None):\n", "    _handlers = {'404-hooks': {}}\n\n    def setup(self, config=None):\n")]
DEMO = '''
a, b = Ombott(), Ombott()
base = call(b, env(path='/no'))
a.error(404)(lambda e: 'A-PAGE')
assert call(b, env(path='/no'))[2] == base[2]
'''
