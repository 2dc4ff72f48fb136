PROPERTY = 'C18'
NEEDS = 'a value whose encoded text ends in an entity-like tail such as &amp;'
BREAKS = 'a key amp;x is taken for a leftover of an HTML escape and renamed'
EDITS = [('ombott/request_pkg/helpers.py', """        key = urlunquote(key.replace('+', ' '))
""", """        key = urlunquote(key.replace('+', ' '))
        if key.startswith('amp;') and len(key) > 4:
            # links copied out of HTML sources
            key = key[4:]
""")]
DEMO = '''
from urllib.parse import urlencode
app = Ombott()
app.route('/x', callback=lambda: repr(sorted(app.request.query.items())))
for pairs in ([('a', '1'), ('b', '2')], [('a', '1'), ('amp;b', '2')], [('amp', ';'), ('amp;', 'x')]):
    s, h, b = call(app, env('GET', '/x', qs=urlencode(pairs)))
    assert b.decode() == repr(sorted(pairs)), (pairs, b)
'''
