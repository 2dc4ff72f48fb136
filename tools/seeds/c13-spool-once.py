PROPERTY = 'C13'
NEEDS = 'a body whose parts cross the threshold exactly at its last byte and then grow (size equal to the threshold seen first)'
BREAKS = 'a body larger than the threshold stays in memory when a part ended exactly at the threshold'
EDITS = [('ombott/request_pkg/body_mixin.py', "        if not is_temp_file and body_size > buff_size:\n", "        if not is_temp_file and body_size - len(part) < buff_size < body_size:\n")]
DEMO = '''
app = Ombott(dict(max_memfile_size=16))
def h():
    app.request.body.fileno()
    return 'ok'
app.post('/', callback=h)
class Dribble(io.BytesIO):
    def read(self, n=-1):
        return super().read(min(n, 5))
assert call(app, env('POST', '/', b'x' * 100, **{'wsgi.input': Dribble(b'x' * 100)}))[0][:3] == '200'
assert call(app, env('POST', '/', b'x' * 100))[0][:3] == '200'
'''
