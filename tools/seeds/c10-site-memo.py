PROPERTY = 'C10'
NEEDS = 'two applications with different domain maps that get requests for the same host'
BREAKS = 'the second one uses the site the first one found'
EDITS = [('ombott/ombott.py', "            app_name = domain_map(environ.get('HTTP_X_FORWARDED_HOST') or environ.get('HTTP_HOST'))\n            if app_name:", "            host = environ.get('HTTP_X_FORWARDED_HOST') or environ.get('HTTP_HOST')\n            app_name = _sites.get(host)\n            if not app_name and len(_sites) < 1000:\n                app_name = _sites[host] = domain_map(host)\n            if app_name:"),
  ('ombott/ombott.py', "@with_method_shortcuts(HTTP_METHODS)\nclass Ombott:", "_sites = {}\n\n\n@with_method_shortcuts(HTTP_METHODS)\nclass Ombott:")]
DEMO = '''
def mk(site):
    app = Ombott(dict(domain_map=lambda h: site))
    app.get('/<s>/x', callback=lambda s: str(s))
    return app
a, b = mk('a'), mk('b')
assert call(a, env(path='/x', HTTP_HOST='h'))[2] == b'a'
assert call(b, env(path='/x', HTTP_HOST='h'))[2] == b'b'
'''
