PROPERTY = 'C20'
NEEDS = 'an error page for a path with a percent sign or braces'
BREAKS = 'the error page template is formatted a second time for pages that contain braces, which brings the unescaped address in'
EDITS = [('ombott/error_render.py', """        else:
            ln = ln.format(**ctx)
""", """        else:
            ln = ln.format(**ctx)
            if '{e.' in ln or '{url}' in ln:
                ln = ln.format(**dict(ctx, url=url))
""")]
DEMO = '''
app = Ombott()
s, h, b = call(app, env('GET', '/nope<script>'))
assert b'<script>' not in b
s, h, b = call(app, env('GET', '/nope', host='{url}<script>'))
assert b'<script>' not in b, b
s, h, b = call(app, env('GET', '/nope', qs='{url}<script>'))
assert b'<script>' not in b, b
'''
