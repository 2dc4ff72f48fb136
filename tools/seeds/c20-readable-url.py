PROPERTY = 'C20'
NEEDS = 'a path with percent-encoded markup on a default error page'
BREAKS = 'the URL is decoded after it was escaped, so percent-encoded markup becomes markup'
EDITS = [('ombott/error_render.py', "    clean_url = sanitize_html.escape(url)\n", "    from urllib.parse import unquote\n    clean_url = unquote(sanitize_html.escape(url))\n")]
DEMO = '''
app = Ombott()
s, h, b = call(app, env(path='/<script>alert(1)</script>'))
assert b'<script>' not in b, b
'''
