PROPERTY = 'C09'
NEEDS = 'a domain map and a request without any Host after one with a site of its own'
BREAKS = 'it goes to the site of the earlier request'
EDITS = [('ombott/ombott.py', "            app_name = domain_map(environ.get('HTTP_X_FORWARDED_HOST') or environ.get('HTTP_HOST'))\n            if app_name:", "            host = environ.get('HTTP_X_FORWARDED_HOST') or environ.get('HTTP_HOST')\n            app_name = self.last_site = domain_map(host) if host else self.__dict__.get('last_site')\n            if app_name:")]
DEMO = '''
app = Ombott(dict(domain_map=lambda h: h and h[0]))
app.get('/<p:path>', callback=lambda p: str(p))
assert call(app, env(path='/x', HTTP_HOST='qq'))[2] == b'q/x'
e = env(path='/x')
e.pop('HTTP_HOST', None)
assert call(app, e)[2] == b'x'
'''
