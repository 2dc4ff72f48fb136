PROPERTY = 'C20'
NEEDS = 'an error page for a very long URL with markup behind the first two thousand characters'
BREAKS = 'the tail of a long URL is not escaped'
EDITS = [('ombott/error_render.py', "    clean_url = sanitize_html.escape(url)\n", "    clean_url = sanitize_html.escape(url[:2048]) + url[2048:]\n")]
DEMO = '''
app = Ombott()
r = call(app, env(path='/' + 'x' * 3000, qs='a=1<b>x</b>'))
assert b'<b>x</b>' not in r[2], r
'''
