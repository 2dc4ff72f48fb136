PROPERTY = 'C09'
NEEDS = 'a custom reason phrase for a code without a standard one, and later the bare code'
BREAKS = 'the reason phrase set for one request appears in the status line of later ones'
EDITS = [('ombott/response.py', "        self._status_line = str(status or ('%d Unknown' % code))\n", "        self._status_line = _HTTP_STATUS_LINES.setdefault(code, str(status or ('%d Unknown' % code))) if status is None or code not in _HTTP_STATUS_LINES else str(status)\n")]
DEMO = '''
app = Ombott()
def one():
    app.response.status = '799 Private Reason'
    return 'x'
def two():
    app.response.status = 799
    return 'x'
app.get('/one', callback=one)
app.get('/two', callback=two)
call(app, env(path='/one'))
assert call(app, env(path='/two'))[0] == '799 Unknown'
'''
