PROPERTY = 'C03'
NEEDS = 'a file-like that returns short reads (pipe, socket) and no server file_wrapper'
BREAKS = 'streaming a file-like stops at the first short read: the body is cut'
EDITS = [('ombott/common_helpers.py', "        while part:\n            yield part\n            part = read(buff)\n", "        while part:\n            yield part\n            part = read(buff) if len(part) == buff else b''\n")]
DEMO = '''
class Pipe:
    def __init__(self):
        self.parts = [b'ab', b'cd', b'']

    def read(self, n=-1):
        return self.parts.pop(0)


app = Ombott()
app.get('/', callback=lambda: Pipe())
assert call(app, env())[2] == b'abcd'
'''
