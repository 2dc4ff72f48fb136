PROPERTY = 'C20'
NEEDS = 'a 404 page for a request whose host holds markup'
BREAKS = 'only what follows the host is escaped'
EDITS = [('ombott/error_render.py', "    clean_url = sanitize_html.escape(url)\n", "    scheme, _, tail = url.partition('//')\n    host, sep, tail = tail.partition('/')\n    clean_url = scheme + '//' + host + sep + sanitize_html.escape(tail)\n")]
DEMO = '''
app = Ombott()
r = call(app, env(path='/x', HTTP_X_FORWARDED_HOST='<script>alert(1)<script>'))
assert b'<script>' not in r[2], r
'''
