PROPERTY = 'C10'
NEEDS = 'two applications, one of them with request hooks'
BREAKS = 'hooks of the applications are shared'
EDITS = [('ombott/common_helpers.py', "        setattr(obj, self.func.__name__, value)\n        return value\n", "        setattr(cls if getattr(cls, '_hooks', None) is self else obj, self.func.__name__, value)\n        return value\n")]
DEMO = '''
a, b = Ombott(), Ombott()
seen = []
b.get('/', callback=lambda: 'x')
a.on('before_request', lambda: seen.append(1))
call(b, env())
assert not seen
'''
