PROPERTY = 'C10'
NEEDS = 'a handler that sets a cookie and then calls another application that sets one'
BREAKS = 'the cookies of a response are replaced by those of a nested request'
EDITS = [('ombott/response.py', """            self._cookies = SimpleCookie()

        if secret""", """            self._cookies = _jar()

        if secret"""), ('ombott/response.py', """class BaseResponse:
    \"\"\" Storage""", """_jars = threading.local()


def _jar():
    ''' An empty jar, constructed once per thread. '''
    jar = _jars.__dict__.setdefault('jar', SimpleCookie())
    jar.clear()
    return jar


class BaseResponse:
    \"\"\" Storage"""), ('ombott/response.py', """import calendar
""", """import calendar
import threading
""")]
DEMO = '''
a, b = Ombott(), Ombott()
def hb():
    b.response.set_cookie('b', '1')
    return 'b'
def ha():
    a.response.set_cookie('a', '1')
    call(b, env('GET', '/'))
    return 'a'
a.get('/', callback=ha)
b.get('/', callback=hb)
r = call(a, env('GET', '/'))
assert [v for k, v in r[1] if k == 'Set-Cookie'] == ['a=1'], r
'''
