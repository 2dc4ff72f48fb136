PROPERTY = 'C10'
NEEDS = 'redirect() with a relative location in an application that is not the default one'
BREAKS = 'the location is resolved against the last request of the default application'
EDITS = [('ombott/ombott.py', """urljoin(request.url, url)""", """urljoin(Globals.request.url, url)""")]
DEMO = '''
a = Ombott()
d = ombott.default_app()
d.get('/d', callback=lambda: 'd')
a.get('/dir/x', callback=lambda: ombott.redirect('y'))
call(d, env('GET', '/d'))
r = call(a, env('GET', '/dir/x'))
assert dict(r[1])['Location'] == 'http://h/dir/y', r
'''
