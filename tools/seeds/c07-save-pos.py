PROPERTY = 'C07'
NEEDS = 'an upload whose size is a multiple of the copy buffer, saved to a file'
BREAKS = 'save() stops early: a chunk that does not fill the buffer is taken for the end before it is written'
EDITS = [('ombott/request_pkg/helpers.py', """            buf = read(chunk_size)
            if not buf:
                break
            write(buf)
""", """            buf = read(chunk_size)
            if len(buf) < chunk_size and write.__self__.tell():
                break
            write(buf)
            if len(buf) < chunk_size:
                break
""")]
DEMO = '''
app = Ombott()
out = []
def h():
    f = io.BytesIO()
    app.request.files['a'].save(f)
    out.append(f.getvalue())
    return 'ok'
app.post('/', callback=h)
for n in (0, 10, 70000):
    body = b'--B\\r\\nContent-Disposition: form-data; name="a"; filename="f"\\r\\n\\r\\n' + b'x' * n + b'\\r\\n--B--\\r\\n'
    call(app, env('POST', '/', body, CONTENT_TYPE='multipart/form-data; boundary=B'))
    assert out[-1] == b'x' * n, (n, len(out[-1]))
'''
