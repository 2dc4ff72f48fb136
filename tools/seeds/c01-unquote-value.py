PROPERTY = 'C01'
NEEDS = 'a path with a percent sign behind decoding (%25xx on the wire)'
BREAKS = 'wildcard values are percent-decoded a second time: what the handler gets is not the text of the path'
EDITS = [('ombott/router/radirouter.py', """        return {n: v for n, v in zip(names, values) if not n.startswith(cls.anon_prefix)}""",
 """        from urllib.parse import unquote
        return {
            n: unquote(v) if isinstance(v, str) else v
            for n, v in zip(names, values) if not n.startswith(cls.anon_prefix)
        }""")]
DEMO = '''
app = Ombott()
app.route('/f/<p>', callback=lambda p: p)
assert call(app, env('GET', '/f/a+b'))[2] == b'a+b'
assert call(app, env('GET', '/f/100%41'))[2] == b'100%41'
'''
