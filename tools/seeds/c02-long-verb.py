PROPERTY = 'C02'
NEEDS = 'a method name longer than sixteen characters'
BREAKS = 'the request goes to the ANY handler or is refused'
EDITS = [('ombott/request_pkg/props_mixin.py', "        return self._env_get('REQUEST_METHOD', 'GET').upper()\n", "        return self._env_get('REQUEST_METHOD', 'GET')[:16].upper()\n")]
DEMO = '''
app = Ombott()
app.route('/', 'BASELINE-CONTROL-X', callback=lambda: 'x')
assert call(app, env('BASELINE-CONTROL-X'))[2] == b'x'
'''
