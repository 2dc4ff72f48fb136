PROPERTY = 'C09'
NEEDS = 'two failing requests with the same status in debug mode off, with different error texts'
BREAKS = 'error pages are cached per status and URL, so the text of an error is that of an earlier one'
EDITS = [('ombott/error_render.py', """    if not _html_lns:
        with html.open('r') as f:
""", """    key = (err_resp.status_code, url)
    if not debug and key in _pages:
        return _pages[key]

    if not _html_lns:
        with html.open('r') as f:
"""), ('ombott/error_render.py', """        out.append(ln)
    return ''.join(out)
""", """        out.append(ln)
    page = ''.join(out)
    if not debug and len(_pages) < 64:
        _pages[key] = page
    return page
"""), ('ombott/error_render.py', """_html_lns = []
""", """_html_lns = []
_pages = {}
""")]
DEMO = '''
app = Ombott()
@app.post('/')
def h():
    raise HTTPError(409, 'conflict with ' + app.request.body.read().decode())
for t in (b'alpha', b'beta'):
    s, h, b = call(app, env('POST', '/', t))
    assert t in b, b
'''
