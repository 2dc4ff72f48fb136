PROPERTY = 'C20'
NEEDS = 'a critical error for a path that holds a double quote, an apostrophe or an ampersand'
BREAKS = 'the escaping helper of the critical error page leaves & and quotes alone'
EDITS = [('ombott/common_helpers.py', "    return string.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')\\\n                 .replace('\"', '&quot;').replace(\"'\", '&#039;')\n", "    return string.replace('<', '&lt;').replace('>', '&gt;')\\\n                 .replace('\"', '&quot;').replace(\"'\", '&#039;')\n")]
DEMO = '''
app = Ombott()


@app.error(404)
def eh(e):
    raise RuntimeError


s, h, b = call(app, env(path='/&lt;b&gt;'))
assert b'/&amp;lt;b' in b, b
'''
