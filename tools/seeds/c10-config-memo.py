PROPERTY = 'C10'
NEEDS = 'an application constructed with a temporary configuration after that of another one was freed'
BREAKS = 'the configuration of an earlier application is used for a later one'
EDITS = [('ombott/common_helpers.py', """        return NameSpace(**{
            key: src_config.get(key, kw.get(key, default))
            for key, default in cls.items()
        })
""", """        memo_key = (cls, id(src_config), len(src_config) if isinstance(src_config, dict) else 0)
        values = cls._memo.get(memo_key) if not kw else None
        if values is None:
            values = cls._memo[memo_key] = {
                key: src_config.get(key, kw.get(key, default))
                for key, default in cls.items()
            }
        return NameSpace(**values)
"""), ('ombott/common_helpers.py', """class SimpleConfig(metaclass=_MetaSimpleConfig):
""", """class SimpleConfig(metaclass=_MetaSimpleConfig):

    _memo = {}
""")]
DEMO = '''
bad = []
for n in range(1, 3000):
    a = Ombott(dict(max_body_size=n))
    if a.config.max_body_size != n or a.request.config.max_body_size != n:
        bad.append((n, a.config.max_body_size, a.request.config.max_body_size))
assert not bad, bad[:5]
'''
