PROPERTY = 'C20'
NEEDS = 'a query string longer than five hundred characters'
BREAKS = 'the shortened query text is cut and unquoted after escaping'
EDITS = [('ombott/error_render.py', "    clean_url = sanitize_html.escape(url)\n", "    clean_url = sanitize_html.escape(url)\n    if len(clean_url) > 500:\n        # keep pages small\n        clean_url = sanitize_html.unescape(clean_url)[:500]\n")]
DEMO = '''
app = Ombott()
r = call(app, env(path='/x', qs='<b>' + 'a' * 600))
assert b'<b>a' not in r[2], r
'''
