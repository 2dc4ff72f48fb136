PROPERTY = 'C20'
NEEDS = 'a query string (not the percent-encoded path) with markup next to a non-ASCII character'
BREAKS = 'the URL is escaped only when it is plain ASCII'
EDITS = [('ombott/error_render.py', "    clean_url = sanitize_html.escape(url)\n", "    clean_url = sanitize_html.escape(url) if url.isascii() else ascii(url)\n")]
DEMO = '''
app = Ombott()
s, h, b = call(app, env(path='/x', qs='\\xe9<b>'))
assert s.startswith('404') and b'<b>' not in b, b
'''
