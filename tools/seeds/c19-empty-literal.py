PROPERTY = 'C19'
NEEDS = 'two adjacent wildcards after a literal'
BREAKS = 'the literal in front of adjacent wildcards is repeated in the built URL'
EDITS = [('ombott/router/radirouter.py', '''            end = cidx
            if clen:''', '''            end = max(cidx - 1, 0) if ret and not clen and len(ret) > 2 else cidx
            if clen:''')]
DEMO = '''
from ombott.router.radirouter import RadiRouter
r = RadiRouter()
route = r.add('/n/{x:int}-{a:re:[a-z]}{y:int}/e', 'GET', lambda **k: 0)
ep = r.resolve('/n/5-b7/e', ['GET'])[0]
assert route.url(**ep[1]) == 'n/5-b7/e', route.url(**ep[1])
'''
