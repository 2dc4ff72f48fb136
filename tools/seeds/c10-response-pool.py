PROPERTY = 'C10'
NEEDS = 'more than 16 applications in the process, and a request of one nested in that of another'
BREAKS = 'every 16th application builds its response in the same object'
EDITS = [('ombott/ombott.py', "        self.response = Response()\n", "        _responses.append(Response() if len(_responses) < 16 else _responses[-16])\n        self.response = _responses[-1]\n"),
  ('ombott/ombott.py', "@with_method_shortcuts(HTTP_METHODS)\nclass Ombott:", "_responses = []\n\n\n@with_method_shortcuts(HTTP_METHODS)\nclass Ombott:")]
DEMO = '''
apps = [Ombott() for i in range(40)]
a, b = apps[10], apps[26]
@b.get('/')
def inner():
    b.response.headers['X-In'] = '1'
    return 'b'
@a.get('/')
def outer():
    call(b, env())
    return 'a'
assert 'X-In' not in dict(call(a, env())[1])
'''
