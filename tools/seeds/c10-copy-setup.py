PROPERTY = 'C10'
NEEDS = 'Request.copy() and then setup of another application or of the copy'
BREAKS = 'configurations of requests are one object'
EDITS = [('ombott/common_helpers.py', """        if src_config is None:
            src_config = {}
        return NameSpace(**{
            key: src_config.get(key, kw.get(key, default))
            for key, default in cls.items()
        })
""", """        if src_config is None:
            src_config = {}
        ns = cls.__dict__.get('_ns')
        if ns is None or kw or src_config:
            ns = NameSpace(**{
                key: src_config.get(key, kw.get(key, default))
                for key, default in cls.items()
            })
        if not hasattr(cls, '__keys__') or src_config:
            cls._ns = ns
        return ns
""")]
DEMO = '''
a = Ombott(dict(max_body_size=3))
b = Ombott()
assert b.config.max_body_size is None, b.config
'''
