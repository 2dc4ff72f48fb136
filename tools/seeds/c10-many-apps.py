PROPERTY = 'C10'
NEEDS = 'more than eight applications in the process'
BREAKS = 'the ninth application shares its configuration with the first one'
EDITS = [('ombott/ombott.py', "        self.response = Response()\n        self._route_hooks = {}\n", "        self.response = Response()\n        Ombott._pool = pool = getattr(Ombott, '_pool', None) or []\n        if len(pool) < 8:\n            pool.append(self.response)\n        else:\n            self.response = pool[-1]\n        self._route_hooks = {}\n")]
DEMO = '''
apps = [Ombott() for _ in range(12)]
assert len({id(a.response) for a in apps}) == 12
'''
