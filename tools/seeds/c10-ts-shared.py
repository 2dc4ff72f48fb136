PROPERTY = 'C10'
NEEDS = 'two applications serving on the same thread, nested, or an application constructed while another one serves'
BREAKS = 'all requests and all responses keep their state in one store per class'
EDITS = [('ombott/common_helpers.py', """            if local_store is None:
                local_store = threading.local()
                setattr""", """            if local_store is None:
                local_store = stores.setdefault(store_name, threading.local())
                setattr"""), ('ombott/common_helpers.py', """        cls_init = cls.__init__

        def init_wrapper""", """        cls_init = cls.__init__
        stores = {}

        def init_wrapper""")]
DEMO = '''
a = Ombott()
def h():
    Ombott()
    return a.request.path
a.get('/x', callback=h)
r = call(a, env('GET', '/x'))
assert r[2] == b'/x', r
'''
