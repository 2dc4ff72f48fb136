PROPERTY = 'C09'
NEEDS = 'a response with cookies followed by another on the same thread (two cooperating sites)'
BREAKS = 'cookies of the previous response of the thread are sent again'
EDITS = [('ombott/common_helpers.py', """                local_store = threading.local()
                setattr(self, store_name, local_store)
            [setattr(local_store, k, None) for k in props]
""", """                local_store = threading.local()
                setattr(self, store_name, local_store)
            [setattr(local_store, k, None) for k in props if not hasattr(local_store, k)]
"""), ('ombott/response.py', """        self._status_code = None
        self._cookies = None
        self._headers = {}
""", """        self._status_code = None
        if getattr(self, '_cookies', None) is None:
            self._cookies = None
        self._headers = {}
""")]
DEMO = '''
app = Ombott()
@app.get('/login')
def login():
    app.response.set_cookie('sid', 'secret')
    return 'in'
app.get('/', callback=lambda: 'x')
call(app, env('GET', '/login'))
s, h, b = call(app, env('GET', '/'))
assert not [v for k, v in h if k.lower() == 'set-cookie'], h
'''
