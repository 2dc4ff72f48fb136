PROPERTY = 'C01'
NEEDS = 'a rex wildcard with ten or more alternatives, a route for the tenth one'
BREAKS = 'the selector is cut to one character: the path of alternative 10 goes to the route of alternative 1 followed by a literal 0, or is not found'
EDITS = [('ombott/router/parser.py', r"filter_selector = S.expect(r'\[(.+?)\]', 1)", r"filter_selector = S.expect(r'\[(.).*?\]', 1)")]
DEMO = '''
app = Ombott()
alts = 'abcdefghijkl'
spec = '|'.join('(%s)' % c for c in alts)
for i in (1, 10, 11):
    app.route('/x/<p.rex(%s)[%d]>/t' % (spec, i), callback=lambda p, i=i: '%d%s' % (i, p))
for i in (1, 10, 11):
    r = call(app, env(path='/x/%s/t' % alts[i - 1]))
    assert r[0].startswith('200') and r[2] == ('%d%s' % (i, alts[i - 1])).encode(), (i, r)
'''
