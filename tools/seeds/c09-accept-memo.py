PROPERTY = 'C09'
NEEDS = 'two errors whose requests have the same path but different Accept headers'
BREAKS = 'the second page has the content type of the first'
EDITS = [('ombott/ombott.py', "        if self.request.is_json_requested:\n", """        memo = self.__dict__.setdefault('_wants', {})
        if len(memo) > 100:
            memo.clear()
        key = (self.request.path, self.request.get('REMOTE_ADDR'))
        if memo.setdefault(key, self.request.is_json_requested):
""")]
DEMO = '''
app = Ombott()
call(app, env('GET', '/x', HTTP_ACCEPT='application/json'))
assert call(app, env('GET', '/x', HTTP_ACCEPT='text/html'))[2].startswith(b'<')
'''
