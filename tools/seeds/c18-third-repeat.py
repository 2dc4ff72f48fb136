PROPERTY = 'C18'
NEEDS = 'a key repeated three times or more whose first two values are equal'
BREAKS = 'a repeated value is dropped from the list'
EDITS = [('ombott/request_pkg/helpers.py', "                tmp = _lists[k] = [_seen[k], v]\n", "                tmp = _lists[k] = [_seen[k], v] if _seen[k] != v else [v]\n")]
DEMO = '''
app = Ombott()
app.get('/', callback=lambda: repr(app.request.query.a))
assert call(app, env(qs='a=1&a=2&a=1'))[2] == b"['1', '2', '1']"
assert call(app, env(qs='a=1&a=1&a=2'))[2] == b"['1', '1', '2']"
'''
