PROPERTY = 'C09'
NEEDS = 'a response with another charset, then one that leaves its content type alone'
BREAKS = 'the default content type is changed by a handler that sets the charset'
EDITS = [('ombott/response.py', """        if 'charset=' in self.content_type:
            return self.content_type.split('charset=')[-1].split(';')[0].strip()
        return default
""", """        if 'charset=' in self.content_type:
            BaseResponse._charset = self.content_type.split('charset=')[-1].split(';')[0].strip()
            return self._charset
        return getattr(self, '_charset', default) if 'text/' in self.content_type else default
""")]
DEMO = '''
app = Ombott()
@app.get('/a')
def a():
    app.response.content_type = 'text/plain; charset=latin1'
    return 'x'
@app.get('/b')
def b():
    app.response.content_type = 'text/csv'
    return '\\xe9'
call(app, env('GET', '/a'))
s, h, b = call(app, env('GET', '/b'))
assert b == b'\\xc3\\xa9', b
'''
