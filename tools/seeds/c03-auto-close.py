PROPERTY = 'C03'
NEEDS = 'a server that reads the output to its end and then closes it'
BREAKS = 'the handler iterable is closed twice'
EDITS = [('ombott/ombott.py', "        return iter(self.iterator)\n\n    def close(self):\n", "        yield from self.iterator\n        self.close()\n\n    def close(self):\n")]
DEMO = '''
class It:
    n = 0
    def __iter__(self):
        return iter(['a', 'b'])
    def close(self):
        It.n += 1
app = Ombott()
app.get('/', callback=lambda: It())
assert call(app, env())[2] == b'ab'
assert It.n == 1, It.n
'''
