PROPERTY = 'C10'
NEEDS = 'another application constructed with its own configuration after the first one, on which the request class is changed'
BREAKS = 'the cookie container of all the applications follows the configuration of the last one'
EDITS = [('ombott/ombott.py', """        self.config = config = DefaultConfig(config)
        self.request.setup(config)
""", """        self.config = config = DefaultConfig(config)
        for app in (self, Globals.app):
            app.request.setup(config)
""")]
DEMO = '''
import ombott
g = ombott.default_app()
before = g.request.config.max_memfile_size
Ombott().setup({'max_memfile_size': 7})
assert g.request.config.max_memfile_size == before
'''
