PROPERTY = 'C15'
NEEDS = 'a signature in which the case of a letter is changed'
BREAKS = 'it is accepted'
EDITS = [('ombott/common_helpers.py', "        if _lscmp(sig[1:], base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest())):\n", "        if _lscmp(sig[1:].lower(), base64.b64encode(hmac.new(tob(key), msg, digestmod=hashlib.md5).digest()).lower()):\n")]
DEMO = '''
from ombott.common_helpers import cookie_encode, cookie_decode
c = cookie_encode(('a', 1), 'k')
s, m = c.split(b'?')
assert cookie_decode(c, 'k') == ('a', 1)
assert cookie_decode(s.swapcase() + b'?' + m, 'k') is None
'''
