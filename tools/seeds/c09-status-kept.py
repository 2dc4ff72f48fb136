PROPERTY = 'C09'
NEEDS = 'a response with a custom reason phrase, then one with a status of the same code'
BREAKS = 'a reason phrase a handler chose is remembered for the code and used by later responses'
EDITS = [('ombott/response.py', """        self._status_code = code
        self._status_line = str(status or ('%d Unknown' % code))
""", """        self._status_code = code
        if status and code not in _HTTP_STATUS_LINES:
            _HTTP_STATUS_LINES[code] = status
        self._status_line = str(status or ('%d Unknown' % code))
""")]
DEMO = '''
app = Ombott()
@app.get('/a')
def a():
    app.response.status = '299 Reason of Alice'
    return 'x'
@app.get('/b')
def b():
    app.response.status = 299
    return 'x'
call(app, env('GET', '/a'))
s, h, b = call(app, env('GET', '/b'))
assert s == '299 Unknown', s
'''
