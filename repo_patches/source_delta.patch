From 2e001cb4aa572478a94c529fec459bd34f464462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 01/43] fix: a CR in the request path must not match the
 wildcard node as literal text

---
 ombott/router/radidict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 863bc77..d87a96f 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -397,7 +397,8 @@ class RadiDict:
                 else:
                     c0 = route[i]
                     for ic, c in enumerate(idx):
-                        if c == c0:
+                        # the token is not a literal even if the path contains it
+                        if c == c0 and c != TOKEN:
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
-- 
2.43.0


From c5284399ee77a0098fdc480689e2da3e5804fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 02/43] fix: a rule sharing its pattern with another one keeps
 its own wildcard names

---
 ombott/router/radirouter.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 8905534..74e1ba0 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -6,13 +6,15 @@ from .parser import Parser
 
 
 class RouteMethod:
-    __slots__ = ('route', 'name', 'handler', 'meta')
+    __slots__ = ('route', 'name', 'handler', 'meta', 'params')
 
-    def __init__(self, route, name, handler, meta=None):
+    def __init__(self, route, name, handler, meta=None, params=None):
         self.route = route
         self.name = name
         self.handler = handler
         self.meta = meta
+        #: wildcard names of the rule this handler was registered under
+        self.params = route.params if params is None else params
 
     def remove(self):
         self.route.remove_method(self.name)
@@ -110,14 +112,14 @@ class Route:
 
         return ''.join(ret)
 
-    def _set_methods(self, methods, handler, meta=None):
+    def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-            self._methods[meth] = RouteMethod(self, meth, handler, meta)
+            self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None):
+    def set_method(self, method, handler, meta=None, *, params=None):
         if isinstance(method, str):
             method = [method]
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
         registered = set(self._methods) & set(method)
@@ -133,11 +135,11 @@ class Route:
                 f'but there are already registered: `{registered_fullnames}`'
             )
 
-    def add_method(self, method, handler, meta=None):
+    def add_method(self, method, handler, meta=None, *, params=None):
         if isinstance(method, str):
             method = [method]
         self._raise_if_registered(method, handler)
-        self._set_methods(method, handler, meta)
+        self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
         if isinstance(method, str):
@@ -316,7 +318,7 @@ class RadiRouter:
             return None, [404, 'Not Found', extra]
         try:
             meth = route[methods]
-            params = route.make_params_dict(extra['param_keys'], extra['param_values'])
+            params = route.make_params_dict(meth.params, extra['param_values'])
             return [meth, params, extra['hooks']], None
         except RouteMethodError:
             allowed = ",".join(sorted(route.methods))
@@ -373,6 +375,7 @@ class RadiRouter:
 
     def _add(self, rule, methods, handler, name=None, *, meta=None, overwrite=False):
         route = Route(rule)
+        params = route.params
         route_ = self._match(route.pattern, route.filters)
         if route_:
             route = route_
@@ -381,9 +384,9 @@ class RadiRouter:
             self.routes[route.pattern] = route
 
         if overwrite:
-            route.set_method(methods, handler, meta)
+            route.set_method(methods, handler, meta, params=params)
         else:
-            route.add_method(methods, handler, meta)
+            route.add_method(methods, handler, meta, params=params)
 
         if name:
             registered = self.named_routes.get(name)
-- 
2.43.0


From 5b9be791aedac5c610aa670c11346121cb9bb28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 03/43] fix: a number the int/float filter cannot convert is
 not a match instead of a crash

---
 ombott/router/filter_factory.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index ac25aa1..9b4c97a 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,3 +1,4 @@
+import math
 import re
 
 
@@ -26,12 +27,17 @@ def _rex(conf):
     return conf, f_in, None
 
 
+def _finite_float(matched):
+    ret = float(matched)
+    return ret if math.isfinite(ret) else None
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', float, lambda x: str(float(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', _finite_float, lambda x: str(float(x))),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
@@ -67,7 +73,11 @@ class FilterFactory:
                     tmp = mask.match(param)
                     if not tmp:
                         return None, 0, None
-                    return f_in(tmp.group()), tmp.end(), None
+                    try:
+                        value = f_in(tmp.group())
+                    except ValueError:  # e.g. too many digits
+                        value = None
+                    return value, tmp.end(), None
         else:
             def handler(param):
                 tmp = mask.match(param)
-- 
2.43.0


From df5bcd5d31fedc7d14b32f5ba8c52f9108940620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 04/43] fix: Route method tables accept method names in any
 letter case

---
 ombott/router/radirouter.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 74e1ba0..c827083 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -116,9 +116,14 @@ class Route:
         for meth in methods:
             self._methods[meth] = RouteMethod(self, meth, handler, meta, params)
 
-    def set_method(self, method, handler, meta=None, *, params=None):
+    @staticmethod
+    def _norm_methods(method):
         if isinstance(method, str):
             method = [method]
+        return [m.upper() for m in method]
+
+    def set_method(self, method, handler, meta=None, *, params=None):
+        method = self._norm_methods(method)
         self._set_methods(method, handler, meta, params)
 
     def _raise_if_registered(self, method, candidate):
@@ -136,24 +141,19 @@ class Route:
             )
 
     def add_method(self, method, handler, meta=None, *, params=None):
-        if isinstance(method, str):
-            method = [method]
+        method = self._norm_methods(method)
         self._raise_if_registered(method, handler)
         self._set_methods(method, handler, meta, params)
 
     def remove_method(self, method):
-        if isinstance(method, str):
-            method = [method]
-        [self._methods.pop(m, None) for m in method]
+        [self._methods.pop(m, None) for m in self._norm_methods(method)]
 
     @property
     def methods(self):
         return dict(self._methods)
 
     def __getitem__(self, method):
-        if isinstance(method, str):
-            method = [method]
-        for name in method:
+        for name in self._norm_methods(method):
             meth = self._methods.get(name)
             if meth:
                 return meth
-- 
2.43.0


From bdb72b32a4892da7d5084a1a14bf37aa05607527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 05/43] fix: reject rules with duplicate parameter names or CR
 before they leave traces in the router

---
 ombott/router/radirouter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index c827083..a11dfc4 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -1,7 +1,7 @@
 from enum import IntEnum
 from .radidict import RadiDict, DATA, HOOKS
 from .filter_factory import FilterFactory
-from .errors import RouteBuildError, RouteMethodError
+from .errors import RouteBuildError, RouteMethodError, RouteSyntaxError
 from .parser import Parser
 
 
@@ -177,6 +177,8 @@ class Route:
     @classmethod
     def parse_rule(cls, rule):
         assert rule[0] == '/'
+        if '\r' in rule:
+            raise RouteSyntaxError(f'Rule must not contain CR: {rule!r}')
         rule = rule[1:]
         pattern = []
         pattern_out = []  # to build url (pattern without filter selectors)
@@ -191,6 +193,8 @@ class Route:
                 if not param:
                     param = f'{cls.anon_prefix}{anon_counter}'
                     anon_counter += 1
+                elif param in params:
+                    raise RouteSyntaxError(f'Duplicate parameter name `{param}` in {rule}')
                 params.append(param)
                 h, f_out = cls.make_filter(filter, filter_args)
                 filters.append(h)
-- 
2.43.0


From b68f9afea3a3b7351c76cb92aa56971f4d91b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 06/43] fix: a registration rejected because of its name leaves
 the router unchanged

---
 ombott/router/radirouter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index a11dfc4..69a8bfd 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -381,6 +381,10 @@ class RadiRouter:
         route = Route(rule)
         params = route.params
         route_ = self._match(route.pattern, route.filters)
+        if name and not overwrite:
+            registered = self.named_routes.get(name)
+            if registered and registered is not route_:
+                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
         if route_:
             route = route_
         else:
@@ -393,9 +397,6 @@ class RadiRouter:
             route.add_method(methods, handler, meta, params=params)
 
         if name:
-            registered = self.named_routes.get(name)
-            if not overwrite and registered and registered is not route:
-                raise RouteBuildError(f'Can`t register route, name `{name}` is already used')
             self.named_routes[name] = route
         return route
 
-- 
2.43.0


From af2c73e466fee70cf7eb9b2b683918e3f80f94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 07/43] fix: removing a route by name or object drops all its
 names and never acts as a wildcard

---
 ombott/router/radidict.py   | 4 ++--
 ombott/router/radirouter.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index d87a96f..729d073 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -322,10 +322,10 @@ class RadiDict:
             hooks = hooks, params = params, overwrite = overwrite
         )
 
-    def remove(self, route_pattern, hooks_only=False):
+    def remove(self, route_pattern, hooks_only=False, wildcard=True):
 
         is_wildcard = False
-        if route_pattern and route_pattern[-1] == '*':
+        if wildcard and route_pattern and route_pattern[-1] == '*':
             route_pattern = route_pattern[:-1]
             is_wildcard = True
             if hooks_only:
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 69a8bfd..1a25ef7 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -285,10 +285,13 @@ class RadiRouter:
             route = self.named_routes.pop(name)
             route_pattern = route.pattern
 
-        self.radidict.remove(route_pattern)
         if route:
+            # a particular route: trailing `*` (if any) is a part of its pattern
+            self.radidict.remove(route_pattern, wildcard=False)
             del self.routes[route.pattern]
+            self._remove_named_routers({route.pattern})
         else:
+            self.radidict.remove(route_pattern)
             if route_pattern.endswith('*'):
                 route_pattern = route_pattern[:-1]
                 patterns_to_del = [
-- 
2.43.0


From 86ed99d17addc46506ad275ba53d2b5d059aaedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 08/43] fix: removing a route keeps the hooks of its prefixes,
 removing a hook removes it from bare prefixes too

---
 ombott/router/radidict.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index 729d073..c47675d 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -345,14 +345,13 @@ class RadiDict:
         elif mismatch:
             return
 
-        if hooks_only and node[DATA] is not None:
-            node[HOOKS] = None
-            return
-
         stack.reverse()
         assert node is stack[0]
-        node[DATA] = None
-        node[PARAMS] = []
+        if hooks_only:
+            node[HOOKS] = None
+        else:
+            node[DATA] = None
+            node[PARAMS] = []
         key0_to_del = None
         for node in stack:
             if key0_to_del:
@@ -364,7 +363,7 @@ class RadiDict:
                 node[IDX] = node[IDX].replace(key0_to_del, '')
                 del node[OFFSET + kidx]
                 self._try_merge(node)
-            if not (node[DATA] or node[IDX]):
+            if not (node[DATA] or node[IDX] or node[HOOKS]):
                 key0_to_del = node[KEY][0]
             else:
                 break
-- 
2.43.0


From c3d7a128b5e1495813c62834a3c3d3fe8e9e6b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 09/43] fix: a hook rule with a different filter must not
 replace the hook registered at the same pattern

---
 ombott/router/radirouter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 1a25ef7..831ac0b 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -341,7 +341,7 @@ class RadiRouter:
 
     def add_hook(self, rule, *args, **kwargs):
         route_pattern, params, filters, _, _ = self.parse_rule(rule)
-        route_hooks = self._match(route_pattern = route_pattern, get_hooks = True)
+        route_hooks = self._match(filters = filters, route_pattern = route_pattern, get_hooks = True)
         new_route_hooks = self.hook_installer(route_hooks, *args, **kwargs)
         if new_route_hooks is not None and new_route_hooks is not route_hooks:
             params = {name: [False, filter] for name, filter in zip(params, filters)}
-- 
2.43.0


From ae072c1208259cd38baa5c44c1b689e7b7eff553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 10/43] fix: Route.url accepts values whose filter looks at the
 following text (path before a literal, lookahead, empty match)

---
 ombott/router/radirouter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 831ac0b..efb7929 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -74,6 +74,8 @@ class Route:
         pattern_out = self.pattern_out
 
         ret = []
+        to_check = []
+        length = 0
         pidx = 0
         args_idx = 0
         cidx = 0
@@ -86,6 +88,7 @@ class Route:
             end = cidx
             if clen:
                 end += clen
+                length += clen
                 clen = 0
                 ret.append(pattern_out[cidx:end])
             cidx = end + 1
@@ -103,14 +106,19 @@ class Route:
             if f_out:
                 prt = f_out(prt)
             if f_in:
-                assert f_in(prt)[1]  # `pos` must be > 0 if match
+                to_check.append((length, f_in))
             ret.append(prt)
+            length += len(prt)
 
         if clen:
             end = cidx + clen
             ret.append(pattern_out[cidx:end])
 
-        return ''.join(ret)
+        ret = ''.join(ret)
+        for pos, f_in in to_check:
+            # a filter may look at what follows the value
+            assert f_in(ret[pos:])[0] is not None
+        return ret
 
     def _set_methods(self, methods, handler, meta=None, params=None):
         for meth in methods:
-- 
2.43.0


From 9c0294f7708e2833f5e0eefa89f574e1a178e5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 11/43] fix: Route.url never writes a float in exponent
 notation

---
 ombott/router/filter_factory.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index 9b4c97a..2f34af9 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -1,5 +1,6 @@
 import math
 import re
+from decimal import Decimal
 
 
 class _RouteFilterExhaust:
@@ -32,12 +33,18 @@ def _finite_float(matched):
     return ret if math.isfinite(ret) else None
 
 
+def _float_out(x):
+    # never in exponent notation - the mask doesn't match it
+    ret = format(Decimal(repr(float(x))), 'f')
+    return ret if '.' in ret else ret + '.0'
+
+
 class FilterFactory:
     filters = {
         're':    lambda conf: (conf, None, None),
         'rex':   _rex,
         'int':   lambda conf: (r'-?\d+', int, lambda x: str(int(x))),
-        'float': lambda conf: (r'-?\d+(\.\d+)?', _finite_float, lambda x: str(float(x))),
+        'float': lambda conf: (r'-?\d+(\.\d+)?', _finite_float, _float_out),
         'path':  lambda conf: (f'.+(?={re.escape(conf)})' if conf else '.+$', None, None)
     }
     _filter_cache = {}
-- 
2.43.0


From 5fa03313833aa64b74014d206180205816f04fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 12/43] fix: a wildcard named self reaches the handler and
 Route.url

---
 ombott/router/radirouter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index efb7929..541fcc4 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -33,8 +33,8 @@ class RouteMethod:
     def __repr__(self):
         return '<{}:{} {}>'.format(self.route.rule, self.name, self.handler)
 
-    def __call__(self, *a, **kw):
-        return self.handler(*a, **kw)
+    def __call__(*a, **kw):  # no named `self`: a wildcard can have this name
+        return a[0].handler(*a[1:], **kw)
 
 
 class Route:
@@ -62,8 +62,8 @@ class Route:
         self.pattern_out = pattern_out
         self.filters_out = filters_out
 
-    def url(self, *args, **kw):
-
+    def url(*args, **kw):  # no named `self`: a wildcard can have this name
+        self, args = args[0], args[1:]
         params = self.params
         if not params:
             return self.pattern_out
-- 
2.43.0


From 78345a92e1d84d64dc2714a119b47676a8d23221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 13/43] fix: hook prefixes behind a selector wildcard are
 positions in the request path

---
 ombott/router/radidict.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index c47675d..f01290c 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -381,6 +381,7 @@ class RadiDict:
         look_back = []
         do_look_back = False
         selector = None
+        shift = 0  # of `i` relative to the original route, selectors make them different
         i = 0
         while True:
             while i < L:
@@ -422,11 +423,12 @@ class RadiDict:
                             pnode = token_node
                             h = pnode[HOOKS]
                             if h:
-                                hooks.append([i, h])
+                                hooks.append([i + shift, h])
                             if selector is not None:
                                 look_back.append(
-                                    [route, pnode, i, L, params[:], hooks[:], False]
+                                    [route, pnode, i, L, params[:], hooks[:], False, shift]
                                 )
+                                shift += i - len(str(selector))
                                 route = str(selector) + route[i:]
                                 i = 0
                                 L = len(route)
@@ -440,7 +442,7 @@ class RadiDict:
                 # regular logic
                 if idx[-1] == TOKEN:
                     look_back.append(
-                        [route, pnode, i, L, params[:], hooks[:], True]
+                        [route, pnode, i, L, params[:], hooks[:], True, shift]
                     )
                 pnode = pnode[OFFSET + kidx]
                 key = pnode[KEY]
@@ -449,7 +451,7 @@ class RadiDict:
                     i = key_end
                     h = pnode[HOOKS]
                     if h:
-                        hooks.append([i, h])
+                        hooks.append([i + shift, h])
                 else:
                     break  # while
 
@@ -467,7 +469,7 @@ class RadiDict:
                 # this is partial match => try look_back
 
             if look_back:
-                route, pnode, i, L, params, hooks, look_type = look_back.pop()
+                route, pnode, i, L, params, hooks, look_type, shift = look_back.pop()
                 do_look_back = look_type
             else:
                 return None if not allow_partial else (
-- 
2.43.0


From ef00dc9118c52ff85c7c082845819c3165309bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 14/43] fix: a short read of the server stream must not
 truncate the body, nor a zero memory threshold

---
 ombott/request_pkg/body_mixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3f8b890..ed7ed80 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -26,7 +26,7 @@ def _iter_body(read, buff_size, *, content_length):
         if not part:
             break
         yield part
-        rest_len -= part_size
+        rest_len -= len(part)
 
 
 def _iter_chunked(read, buff_size):
@@ -86,7 +86,8 @@ def _body_read(
         else partial(_iter_body, content_length=content_length)
     )
     body, body_size, is_temp_file = BytesIO(), 0, False
-    for part in body_iter(read, buff_size):
+    # nothing can be read with an empty buffer (everything goes to disk then)
+    for part in body_iter(read, max(buff_size, 1)):
         body.write(part)
         if markup is not None:
             markup.parse(part)
-- 
2.43.0


From 8e383a6584ab98d180742acb65caf31e89bc19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 15/43] fix: chunked bodies survive short reads and legal chunk
 headers longer than the buffer

---
 ombott/request_pkg/body_mixin.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index ed7ed80..3b8a2f0 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -15,6 +15,7 @@ from .helpers import (
 from .errors import RequestError, BodyParsingError, BodySizeError
 
 
+MIN_CHUNK_HEADER_LIMIT = 4096
 MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
 
 
@@ -33,6 +34,8 @@ def _iter_chunked(read, buff_size):
     r, n, rn, sem = b'\r', b'\n', b'\r\n', b';'
     header_size_buff = []
     parsing_err = BodyParsingError()
+    # the size line is not body data, a small buffer must not limit it
+    max_header_size = max(buff_size, MIN_CHUNK_HEADER_LIMIT)
     while True:
 
         # read header to get chunk size
@@ -43,7 +46,7 @@ def _iter_chunked(read, buff_size):
         while True:   # header[-2:] != rn:
             c = read(1)
             read_len += 1
-            if not c or read_len > buff_size:
+            if not c or read_len > max_header_size:
                 raise parsing_err
             # catch `\r\n`
             if seen_r and c == n:
@@ -73,8 +76,9 @@ def _iter_chunked(read, buff_size):
             if not part:
                 raise parsing_err
             yield part
-            rest_len -= part_size
-        if read(2) != rn:
+            rest_len -= len(part)
+        # the stream may deliver CRLF in two reads
+        if (read(1) + read(1)) != rn:
             raise parsing_err
 
 
-- 
2.43.0


From 8d22228ae4ae85bbb8f9c4b49e62a2c19d93e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 16/43] fix: a body that failed to read stays failed instead of
 presenting the rest of its stream

---
 ombott/request_pkg/body_mixin.py | 6 ++++++
 ombott/request_pkg/request.py    | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 3b8a2f0..ebd0401 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -245,6 +245,11 @@ class BodyMixin:
 
     @cache_in('environ[ ombott.request.body ]', read_only=True)
     def _body(self):
+        # the stream of a body that failed once is already consumed partially,
+        # so reading on would present the rest of it as a body
+        failed = self.environ.get('ombott.request.body_error')
+        if failed is not None:
+            self._raise(failed, RequestError)
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         if mp is not None:
@@ -260,6 +265,7 @@ class BodyMixin:
             )
             body.ombott_markup = markup
         except RequestError as err:
+            self.environ['ombott.request.body_error'] = err
             self._raise(err, RequestError)
         self.environ['wsgi.input'] = body
         body.seek(0)
diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index a3afd28..68eecad 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -49,7 +49,7 @@ class BaseRequest:
     def _on_env_changed(request, key, v):
         todelete = ()
         if key == 'wsgi.input':
-            todelete = ('forms', 'files', 'params', 'post', 'json', 'body')
+            todelete = ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error')
         elif key == 'QUERY_STRING':
             todelete = ('query', 'params')
         elif key.startswith('HTTP_'):
-- 
2.43.0


From 9b911e950dcb0366759baf32c5af698b7d814339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 17/43] fix: the multipart markup never depends on how the body
 is divided into chunks

---
 ombott/request_pkg/multipart.py | 54 +++++++++++++--------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 29b6f4e..33a97e8 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -60,7 +60,7 @@ CRLFx2 = CRLF * 2
 CRLFx2_LEN = len(CRLFx2)
 
 
-end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)$')
+end_headers_patt = re.compile(br'(\r\n\r\n)|(\r(\n\r?)?)\Z')
 
 
 class HeadersEaeter:
@@ -90,13 +90,13 @@ class HeadersEaeter:
         return pos
 
     def _eat_last_hyphen(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
         if chunk_start == HYPHEN:
             self.stopped = True
             return base + 1
-        raise UnexpectedBodyEndError(f'Last hyphen was expected, got (first 2 symbols slice): {chunk_start}')
+        raise UnexpectedBodyEndError(f'Last hyphen was expected, got: {chunk_start}')
 
     def _eat_lf(self, chunk: bytes, base: int) -> Optional[int]:
         chunk_start = chunk[base: base + 1]
@@ -108,49 +108,33 @@ class HeadersEaeter:
         raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
 
     def _eat_first_crlf_or_last_hyphens(self, chunk: bytes, base: int) -> Optional[int]:
-        chunk_start = chunk[base: base + 2]
+        # decide by one byte, the next one may be in the next chunk
+        chunk_start = chunk[base: base + 1]
         if not chunk_start:
             return
 
-        if chunk_start == CRLF:
-            return base + 2
-
-        if len(chunk_start) == 1:
-            self.eat_meth = self._meth_map.get(chunk_start)
-        elif chunk_start == HYPHENx2:
-            self.stopped = True
-            return base + 2
-
-        if self.eat_meth is None:
+        eat_meth = self._meth_map.get(chunk_start)
+        if eat_meth is None:
             raise MalformedHeadersError(f'Malformed headers, invalid section start: {chunk_start}')
+        self.eat_meth = eat_meth
+        return eat_meth(chunk, base + 1)
 
     def _eat_headers(self, chunk: bytes, base: int):
         expected: bytes = self.headers_end_expected
         if expected is not None:
             expected_len = len(expected)
-            chunk_start = chunk[base:expected_len]
+            chunk_start = chunk[base: base + expected_len]
             if chunk_start == expected:
                 self.headers_end_expected = None
                 return base + expected_len - CRLFx2_LEN
             chunk_start_len = len(chunk_start)
             if not chunk_start_len:
                 return
-            if chunk_start_len < expected_len:
-                if expected.startswith(chunk_start):
-                    self.headers_end_expected = expected[chunk_start_len:]
-                    return
-                self.headers_end_expected = None
-
-            if expected == LF:  # we saw CRLFCR
-                invalid_sequence = CR + chunk_start[0:1]
-                # NOTE we don not catch all CRLF-malformed errors, but only obvious ones
-                # to stop doing useless work
-                raise MalformedHeadersError(f'Malformed headers, found invalid sequence: {invalid_sequence}')
-            else:
-                assert expected_len >= 2  # (CR)LFCRLF or (CRLF)CRLF
-                self.headers_end_expected = None
-
-        assert self.headers_end_expected is None
+            if expected.startswith(chunk_start):
+                self.headers_end_expected = expected[chunk_start_len:]
+                return
+            # not the end, the headers section continues
+            self.headers_end_expected = None
 
         s = end_headers_patt.search(chunk, base)
         if s is None:
@@ -176,6 +160,7 @@ class BodyMarkuper:
         self.tlen = len(token)
         self.token = token
         self.trest = self.trest_len = None
+        self.start_seen = False
         self.mt = MatchTail(token)
         self.abspos = 0
         self.abs_start_section = 0
@@ -186,7 +171,8 @@ class BodyMarkuper:
 
     def iter_markup(self, chunk: bytes) -> Iterable[Tuple[str, Tuple[int, int]]]:
         if self.stopped:
-            raise StopMarkupException()
+            # epilogue
+            return
         cur_meth = self.cur_meth
         abs_start_section = self.abs_start_section
         start_next_sec = 0
@@ -235,11 +221,13 @@ class BodyMarkuper:
         self.abs_start_section = abs_start_section
 
     def _eat_start_boundary(self, chunk: bytes, base: int):
-        if self.trest is None:
+        if not self.start_seen:
             chunk_start = chunk[base: base + 1]
             if not chunk_start:
                 return
 
+            # only the very first byte of the body is examined
+            self.start_seen = True
             if chunk_start == CR:
                 return self._eat_data(chunk, base)
 
-- 
2.43.0


From b9bcebf6fdeef705f330de032ee53448ac7fec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 18/43] fix: multipart fields keep separators and non-ASCII
 text in names, uploads with an empty filename, content type parameters,
 repeated names per kind

---
 ombott/request_pkg/body_mixin.py | 35 ++++++++++++++-----------
 ombott/request_pkg/multipart.py  | 44 ++++++++++++++++++++++----------
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index ebd0401..9f86008 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -16,7 +16,9 @@ from .errors import RequestError, BodyParsingError, BodySizeError
 
 
 MIN_CHUNK_HEADER_LIMIT = 4096
-MULTIPART_BOUNDARY_PATT = re.compile(r'^multipart/.+?boundary=(.+?)(;|$)')
+MULTIPART_BOUNDARY_PATT = re.compile(
+    r'\s*multipart/[^;]*;(?:[^"]|"[^"]*")*?(?<=[;\s])boundary\s*=\s*(?:"([^"]+)"|([^;"]+))', re.IGNORECASE
+)
 
 
 def _iter_body(read, buff_size, *, content_length):
@@ -202,26 +204,28 @@ class BodyMixin:
         elif markup.error is not None:
             raise markup.error
         listified = set()
+
+        def collect(dct, key, value):
+            if key not in dct:
+                dct[key] = value
+            elif (id(dct), key) in listified:
+                dct[key].append(value)
+            else:
+                dct[key] = [dct[key], value]
+                listified.add((id(dct), key))
+
         for item in FieldStorage.iter_items(body, markup.markups, self.config.max_memfile_size):
-            if item.filename:
+            if item.filename is not None:
                 it = FileUpload(
-                    item.file, item.name,
-                    item.filename, item.headers
+                    item.file, item.name, item.filename,
+                    {name: header.raw for name, header in item.headers.items()}
                 )
                 dct = files
             else:
                 it = item.value
                 dct = forms
-            key = item.name
-
-            if key in post:
-                el = post[key]
-                if key not in listified:
-                    el = post[key] = dct[key] = [el]
-                    listified.add(key)
-                el.append(it)
-            else:
-                post[key] = dct[key] = it
+            collect(dct, item.name, it)
+            collect(post, item.name, it)
         return post
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
@@ -253,7 +257,8 @@ class BodyMixin:
         markup = None
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         if mp is not None:
-            markup = MultipartMarkup(mp.group(1))
+            boundary = mp.group(1) or mp.group(2)
+            markup = MultipartMarkup(boundary.rstrip().encode('latin1', 'replace'))
         try:
             body = _body_read(
                 self.environ['wsgi.input'].read,
diff --git a/ombott/request_pkg/multipart.py b/ombott/request_pkg/multipart.py
index 33a97e8..501cab7 100644
--- a/ombott/request_pkg/multipart.py
+++ b/ombott/request_pkg/multipart.py
@@ -359,7 +359,7 @@ class BytesIOProxy:
         max_sz = self._end - self._pos
         if max_sz <= 0:
             return b''
-        if sz is not None and sz > 0:
+        if sz is not None and sz >= 0:
             sz = min(sz, max_sz)
         else:
             sz = max_sz
@@ -388,11 +388,13 @@ class Header(SimpleNamespace):
     name: str
     value: str
     options: Dict[str, str]
+    raw: str
 
 
 class FieldStorage:
 
-    _patt = re.compile('(.+?)(=(.+?))?(;|$)')
+    # `;` separated items, a quoted string may contain any separators
+    _patt = re.compile(r'((?:[^;"]|"[^"]*"|")*)(?:;|\Z)')
 
     name: str
     value: Optional[str]
@@ -419,18 +421,19 @@ class FieldStorage:
         if has_read > max_read:
             raise BodySizeError('Max in-memory read limit exceed')
         src.seek(start)
-        headers_raw = src.read(sz).decode()
-        for header_raw in headers_raw.splitlines():
+        headers_raw = self._decode(src.read(sz))
+        # CRLF only, other line boundaries are just a text
+        for header_raw in headers_raw.split('\r\n'):
             header = self.parse_header(header_raw)
             self.headers[header.name] = header
             if header.name == 'Content-Disposition':
-                self.name = header.options['name']
+                self.name = header.options.get('name')
                 self.filename = header.options.get('filename')
             elif header.name == 'Content-Type':
                 self.ctype = header.value
 
         if self.name is None:
-            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {header_raw}')
+            raise BodyParsingError(f'Noname field found while parsing multipart/formdata body: {headers_raw}')
 
         if self.filename is not None:
             self.file = BytesIOProxy(src, *data_section)
@@ -442,24 +445,39 @@ class FieldStorage:
                 if has_read > max_read:
                     raise BodySizeError('Max in-memory read limit exceed')
                 src.seek(start)
-                self.value = src.read(sz).decode()
+                self.value = self._decode(src.read(sz))
             else:
                 self.value = ''
         return has_read
 
+    @staticmethod
+    def _decode(raw: bytes) -> str:
+        try:
+            return raw.decode()
+        except UnicodeDecodeError as err:
+            raise BodyParsingError(f'Malformed multipart/formdata, invalid text: {err}')
+
     @classmethod
     def parse_header(cls, s: str):
-        htype, rest = s.split(':', 1)
+        htype, colon, rest = s.partition(':')
+        if not colon:
+            raise BodyParsingError(f'Malformed multipart/formdata, invalid header: {s}')
         opt_iter = cls._patt.finditer(rest)
         hvalue = next(opt_iter).group(1).strip()
         dct = {}
         for it in opt_iter:
-            k = it.group(1).strip()
-            v = it.group(3)
-            if v is not None:
-                v = v.strip('"')
+            k, eq, v = it.group(1).partition('=')
+            k = k.strip()
+            if not k:
+                continue
+            if eq:
+                v = v.strip()
+                if len(v) > 1 and v[0] == v[-1] == '"':
+                    v = v[1:-1]
+            else:
+                v = None
             dct[k.lower()] = v
-        return Header(name=htype, value=hvalue, options=dct)
+        return Header(name=htype.strip().title(), value=hvalue, options=dct, raw=rest.strip())
 
     @classmethod
     def iter_items(cls, src: BytesIO, markup: list, max_read: int):
-- 
2.43.0


From ee14145a47757a974622e3b572871ee57864c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 19/43] fix: malformed form and JSON bodies yield client
 errors, failed forms stay failed, a Content-Length next to chunked framing
 does not truncate a form

---
 ombott/request_pkg/body_mixin.py | 46 ++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 9f86008..9aed1b5 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -116,7 +116,10 @@ class BodyMixin:
         ''' The request body length as an integer. The client is responsible to
             set this header. Otherwise, the real length of the body is unknown
             and -1 is returned. In this case, :attr:`body` will be empty. '''
-        return int(self.environ.get('CONTENT_LENGTH') or -1)
+        try:
+            return int(self.environ.get('CONTENT_LENGTH') or -1)
+        except ValueError:
+            self._raise(RequestError('Invalid Content-Length'), RequestError)
 
     @cache_in('environ[ ombott.request.content_type ]', read_only=True)
     def content_type(self):
@@ -165,7 +168,10 @@ class BodyMixin:
             b = self._get_body_string()
             if not b:
                 return None
-            return json_mod.loads(b)
+            try:
+                return json_mod.loads(b)
+            except (ValueError, RecursionError) as err:
+                self._raise(BodyParsingError(f'Invalid JSON: {err}'), RequestError)
         return None
 
     @cache_in('environ[ ombott.request.post ]', read_only=True)
@@ -175,26 +181,36 @@ class BodyMixin:
             instances of :class:`BytesIOProxy` (file uploads).
 
         """
+        try:
+            post, forms, files = self._parse_post()
+        except RequestError as err:
+            self._raise(err, RequestError)
         env = self.environ
-        files = env['ombott.request.files'] = self._forms_factory()
-        post = self._forms_factory()
+        env['ombott.request.forms'] = forms
+        env['ombott.request.files'] = files
+        return post
+
+    def _parse_post(self):
+        post, files = self._forms_factory(), self._forms_factory()
 
         # We default to application/x-www-form-urlencoded for everything that
         # is not multipart and take the fast path
         ctype = self.content_type
         if not ctype.startswith('multipart/'):
-            if ctype.startswith('application/json'):
-                post.update(self.json)
+            if self.ctype[0] == 'application/json':
+                data = self.json
+                if data is not None:
+                    if not isinstance(data, dict):
+                        raise BodyParsingError('JSON object expected')
+                    post.update(data)
             else:
                 parse_qsl(
                     touni(self._get_body_string(), 'latin1'),
                     setitem=post.__setitem__
                 )
-            env['ombott.request.forms'] = post
-            return post
-
-        forms = env['ombott.request.forms'] = self._forms_factory()
+            return post, post, files
 
+        forms = self._forms_factory()
         body = self.body
         markup: MultipartMarkup = body.ombott_markup
         if markup is None:
@@ -202,7 +218,7 @@ class BodyMixin:
             # when reading body
             raise BodyParsingError()
         elif markup.error is not None:
-            raise markup.error
+            raise BodyParsingError(f'Malformed multipart/formdata: {markup.error}')
         listified = set()
 
         def collect(dct, key, value):
@@ -226,7 +242,7 @@ class BodyMixin:
                 dct = forms
             collect(dct, item.name, it)
             collect(post, item.name, it)
-        return post
+        return post, forms, files
 
     @cache_in('environ[ ombott.request.forms ]', read_only=True)
     def forms(self):
@@ -258,8 +274,9 @@ class BodyMixin:
         mp = MULTIPART_BOUNDARY_PATT.match(self.environ.get('CONTENT_TYPE', ''))
         if mp is not None:
             boundary = mp.group(1) or mp.group(2)
-            markup = MultipartMarkup(boundary.rstrip().encode('latin1', 'replace'))
         try:
+            if mp is not None:
+                markup = MultipartMarkup(boundary.rstrip().encode('latin1', 'replace'))
             body = _body_read(
                 self.environ['wsgi.input'].read,
                 self.config.max_memfile_size,
@@ -284,7 +301,8 @@ class BodyMixin:
         self._body.seek(0)
         read = self._body.read
         max_content_length = self.config.max_memfile_size
-        content_length = self.content_length
+        # a chunked body is not limited by the header
+        content_length = -1 if self.chunked else self.content_length
 
         if content_length > max_content_length:
             raise self._raise(BodySizeError(), RequestError)
-- 
2.43.0


From 5cc2912a4c93331ade88958ef4de9f40cf5b21f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 20/43] fix: request and response objects keep their state per
 instance, redirect and static_file use the application being served

---
 ombott/common_helpers.py |  9 ++++-----
 ombott/ombott.py         | 32 +++++++++++++++++++++++++++++---
 ombott/static_stream.py  |  2 +-
 3 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 1c4c400..9eaaec8 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -72,11 +72,9 @@ def html_escape(string):
 # ------------------[ thread safe props] -------------------
 def ts_props(*props, store_name=None):
     def wrapper(cls):
-        local_store = None
         cls_init = cls.__init__
 
         def init_wrapper(self, *a, **kw):
-            nonlocal local_store
             local_store = getattr(self, store_name, None)
             if local_store is None:
                 local_store = threading.local()
@@ -85,14 +83,15 @@ def ts_props(*props, store_name=None):
             cls_init(self, *a, **kw)
 
         def make_prop(k):
+            # each instance has its own store
             def fget(s):
-                return getattr(local_store, k)
+                return getattr(getattr(s, store_name), k)
 
             def fset(s, v):
-                return setattr(local_store, k, v)
+                return setattr(getattr(s, store_name), k, v)
 
             def fdel(s):
-                return delattr(local_store, k)
+                return delattr(getattr(s, store_name), k)
             doc = 'Local property: %s' % k
             return property(fget, fset, fdel, doc)
 
diff --git a/ombott/ombott.py b/ombott/ombott.py
index bb71528..970954d 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -1,6 +1,7 @@
 import sys
 import json
 import functools
+import threading
 from traceback import format_exc
 import itertools
 from urllib.parse import urljoin
@@ -41,6 +42,16 @@ class DefaultConfig(SimpleConfig):
     allow_x_script_name = False
 
 
+class _Serving(threading.local):
+    ''' Applications being served by the current thread, the innermost one is the last. '''
+
+    def __init__(self):
+        self.apps = []
+
+
+_serving = _Serving()
+
+
 class _closeiter:
     ''' This only exists to be able to attach a .close method to iterators that
         do not support attribute assignment (most of itertools). '''
@@ -415,7 +426,12 @@ class Ombott:
             return [tob(err)]
 
     def __call__(self, environ, start_response):
-        return self.wsgi(environ, start_response)
+        serving = _serving.apps
+        serving.append(self)
+        try:
+            return self.wsgi(environ, start_response)
+        finally:
+            serving.pop()
 
 
 ###############################################################################
@@ -433,8 +449,8 @@ def redirect(location, code=None):
         the HTTP protocol version.
 
     """
-    response = Globals.response
-    request = Globals.request
+    response = Globals.current_response()
+    request = Globals.current_request()
     url = location
     if not code:
         code = 303 if request.get('SERVER_PROTOCOL') == "HTTP/1.1" else 302
@@ -453,6 +469,16 @@ class Globals:
     response = app.response
     error = app.error
 
+    @classmethod
+    def current_request(cls):
+        ''' The request of the application being served by the current thread. '''
+        return _serving.apps[-1].request if _serving.apps else cls.request
+
+    @classmethod
+    def current_response(cls):
+        ''' The response of the application being served by the current thread. '''
+        return _serving.apps[-1].response if _serving.apps else cls.response
+
 
 def default_app():
     return Globals.app
diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index a797da1..7dc9176 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -69,7 +69,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
         :param charset: The charset to use for files with a ``text/*``
             mime-type. (default: UTF-8)
     """
-    request = Globals.request
+    request = Globals.current_request()
     os_path = os.path
     root = os_path.abspath(root) + os.sep
     filename = os_path.abspath(os_path.join(root, filename.strip('/\\')))
-- 
2.43.0


From 468a7e1569ed4050a91d6943758c734584d423f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 21/43] fix: a request with an undecodable path does not reuse
 the state of an earlier request

---
 ombott/ombott.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 970954d..fa1a220 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -270,16 +270,17 @@ class Ombott:
         response = self.response
         request = self.request
 
+        # init thread
+        environ['ombott.app'] = self
+        request.__init__(environ)
+        response.__init__()
         path = environ['ombott.raw_path'] = environ['PATH_INFO']
         try:
             path = path.encode('latin1').decode('utf8')
         except UnicodeError:
             return HTTPError(400, 'Invalid path string. Expected UTF-8')
         environ['PATH_INFO'] = path
-        try:  # init thread
-            environ['ombott.app'] = self
-            request.__init__(environ)
-            response.__init__()
+        try:
             try:  # routing
                 self.emit('before_request')
                 route, kwargs, route_hooks = (None, None, None)
-- 
2.43.0


From 8cc88deaeab54916f78f93e8fe6b87cf650c62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 22/43] fix: shared error objects are never raised or changed
 themselves, raised responses do not pile up tracebacks

---
 ombott/ombott.py              |  5 +++--
 ombott/request_pkg/request.py |  6 ++++--
 ombott/response.py            | 33 +++++++++++++++++++++++++++++++--
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index fa1a220..01ec548 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -294,7 +294,8 @@ class Ombott:
             finally:
                 self.emit('after_request')
         except HTTPResponse as resp:
-            return resp
+            # the same object may be raised many times, do not pile up the tracebacks
+            return resp.with_traceback(None)
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as err500:
@@ -361,7 +362,7 @@ class Ombott:
             except StopIteration:
                 out = ''; continue                               # -----------------^
             except HTTPResponse as rs:
-                first = rs
+                first = rs.with_traceback(None)
             except (KeyboardInterrupt, SystemExit, MemoryError):
                 raise
             except Exception as err500:
diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index 68eecad..11bbd09 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -1,6 +1,7 @@
 
 from ..common_helpers import ts_props, SimpleConfig
 from ..mixable import Mixable
+from ..response import HTTPResponse
 
 from .props_mixin import PropsMixin
 from .body_mixin import BodyMixin
@@ -41,9 +42,10 @@ class BaseRequest:
         for err_cls in (err.__class__, except_class):
             out_err = errors_map.get(err_cls)
             if out_err:
-                err = out_err
+                # the map is shared by all requests
+                err = out_err.clone() if isinstance(out_err, HTTPResponse) else out_err
                 break
-        raise err
+        raise err.with_traceback(None) if isinstance(err, BaseException) else err
 
     @staticmethod
     def _on_env_changed(request, key, v):
diff --git a/ombott/response.py b/ombott/response.py
index 1edafac..335fc41 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -30,6 +30,17 @@ def http_date(value):
     return email.utils.formatdate(value, usegmt=True)
 
 
+def _copy_headers(headers):
+    return {k: (v[:] if isinstance(v, list) else v) for k, v in headers.items()}
+
+
+def _copy_cookies(cookies):
+    copy = SimpleCookie()
+    for name, morsel in cookies.items():
+        dict.__setitem__(copy, name, morsel.copy())
+    return copy
+
+
 _response_slots = (
     '_status_line', '_status_code', 'headers', '_headers',
     '_cookies', 'body', '_ts_props'
@@ -272,14 +283,32 @@ class HTTPResponse(BaseResponse, OmbottException):
         super().__init__(body, status, headers, **more_headers)
 
     def apply(self, response):
+        # self may be raised many times, so the response gets its own containers
         response._status_code = self._status_code
         response._status_line = self._status_line
         response._headers.clear()
-        response._headers.update(self._headers)
+        response._headers.update(_copy_headers(self._headers))
         if self._cookies:
-            response._cookies = self._cookies
+            response._cookies = _copy_cookies(self._cookies)
         response.body = self.body
 
+    def clone(self):
+        ''' Returns an independent exception of the same class (the body is shared),
+            so that an error kept for many requests is never raised (and changed) itself. '''
+        cls = self.__class__
+        clone = cls.__new__(cls)
+        clone.args = self.args
+        clone.__dict__.update(self.__dict__)
+        for klass in cls.__mro__:
+            slots = klass.__dict__.get('__slots__', ())
+            for name in [slots] if isinstance(slots, str) else slots:
+                if name != 'headers' and hasattr(self, name):
+                    setattr(clone, name, getattr(self, name))
+        clone._headers = clone.headers.dict = _copy_headers(self._headers)
+        if self._cookies:
+            clone._cookies = _copy_cookies(self._cookies)
+        return clone
+
 
 class HTTPError(HTTPResponse):
     __slots__ = ('exception', 'traceback')
-- 
2.43.0


From 0bb031e33af9aa755701ce59c4133dba92663bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 23/43] fix: the error page of a path that looks like a broken
 URL is not a critical error

---
 ombott/request_pkg/props_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index cce942c..8572da9 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -2,7 +2,6 @@ import base64
 from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
-    urljoin,
     SplitResult as UrlSplitResult
 )
 
@@ -103,7 +102,8 @@ class PropsMixin:
     def fullpath(self):
         """ Request path including :attr:`script_name` (if present). """
         appname = self._env_get(self.config.app_name_header, '/')
-        return urljoin(self.script_name, self.path[len(appname):].lstrip('/'))
+        # the path is a text, not an URL reference to be resolved
+        return self.script_name + self.path[len(appname):].lstrip('/')
 
     @property
     def query_string(self):
-- 
2.43.0


From d69ab8c9bdfbefe3f022425f03d9e602ae00afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 24/43] fix: a malformed status line is rejected by the status
 setter

---
 ombott/response.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 335fc41..f9dbac0 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -3,6 +3,7 @@ import email.utils
 import http.client as httplib
 from http.cookies import SimpleCookie
 import calendar
+import re
 
 from .common_helpers import (
     ts_props,
@@ -41,6 +42,9 @@ def _copy_cookies(cookies):
     return copy
 
 
+# code and reason phrase, no control characters
+_STATUS_LINE_PATT = re.compile(r'[0-9]{3} [^\x00-\x1f\x7f]*\S[^\x00-\x1f\x7f]*')
+
 _response_slots = (
     '_status_line', '_status_code', 'headers', '_headers',
     '_cookies', 'body', '_ts_props'
@@ -148,7 +152,9 @@ class BaseResponse:
             code, status = status, _HTTP_STATUS_LINES.get(status)
         elif ' ' in status:
             status = status.strip()
-            code = int(status.split()[0])
+            if not _STATUS_LINE_PATT.fullmatch(status):
+                raise ValueError('Malformed status line: %r' % status)
+            code = int(status[:3])
         else:
             raise ValueError('String status line without a reason phrase.')
         if not 100 <= code <= 999:
-- 
2.43.0


From e1fc124c92ed85078b2087667a16abcc24013acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 25/43] fix: no body for HEAD in any letter case, other 1xx and
 critical errors; an output that can not be sent is closed; text chunks are
 encoded with the charset of their response

---
 ombott/ombott.py | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 01ec548..35340c9 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -274,7 +274,7 @@ class Ombott:
         environ['ombott.app'] = self
         request.__init__(environ)
         response.__init__()
-        path = environ['ombott.raw_path'] = environ['PATH_INFO']
+        path = environ['ombott.raw_path'] = environ.get('PATH_INFO', '')
         try:
             path = path.encode('latin1').decode('utf8')
         except UnicodeError:
@@ -372,14 +372,22 @@ class Ombott:
             # These are the inner types allowed in iterator or generator objects.
             if isinstance(first, HTTPResponse):
                 out = first; continue                            # -----------------^
-            elif isinstance(first, bytes):
+            close = getattr(out, 'close', None)
+            if isinstance(first, bytes):
                 new_iter = itertools.chain([first], iout)
             elif isinstance(first, str):
-                new_iter = (it.encode(response.charset) for it in itertools.chain([first], iout))
+                charset = response.charset
+                try:
+                    first = first.encode(charset)
+                except (LookupError, UnicodeError) as err500:
+                    if close:
+                        close()
+                    out = HTTPError(500, 'Unhandled exception', err500, format_exc())
+                    continue                                     # -----------------^
+                new_iter = itertools.chain([first], (it.encode(charset) for it in iout))
             else:
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
-            close = getattr(out, 'close', None)
             if close:
                 new_iter = _closeiter(new_iter, close)
             return new_iter
@@ -393,24 +401,37 @@ class Ombott:
             app_name = domain_map(environ.get('HTTP_X_FORWARDED_HOST') or environ.get('HTTP_HOST'))
             if app_name:
                 environ[config.app_name_header] = '/' + app_name
-                environ["PATH_INFO"] = '/' + app_name + environ["PATH_INFO"]
+                environ["PATH_INFO"] = '/' + app_name + environ.get("PATH_INFO", '')
 
+        # hooks may change the environ, but not what the client is waiting for
+        head_requested = environ['REQUEST_METHOD'].upper() == 'HEAD'
+        close = None
         try:
             out = self._cast(self._handle(environ))
+            close = getattr(out, 'close', None)
             # rfc2616 section 4.3
             if (
-                response._status_code in {100, 101, 204, 304}
-                or environ['REQUEST_METHOD'] == 'HEAD'
+                100 <= response._status_code < 200
+                or response._status_code in {204, 304}
+                or head_requested
+                or self.request.method == 'HEAD'
             ):
-                close = getattr(out, 'close', None)
-                if close:
-                    close()
+                close_now, close = close, None
+                if close_now:
+                    close_now()
                 out = []
-            start_response(response._status_line, response.headerlist)
+            status_line = response._status_line.encode('utf8').decode('latin1')
+            start_response(status_line, response.headerlist)
             return out
         except (KeyboardInterrupt, SystemExit, MemoryError):
             raise
         except Exception as _e:
+            if close:
+                # the server will never see this output
+                try:
+                    close()
+                except Exception:
+                    environ['wsgi.errors'].write(format_exc())
             if not self.config.catchall:
                 raise
 
@@ -425,7 +446,7 @@ class Ombott:
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-            return [tob(err)]
+            return [] if head_requested else [tob(err)]
 
     def __call__(self, environ, start_response):
         serving = _serving.apps
-- 
2.43.0


From 084c5dc87367b70d5b70bef1ffc41afea97d8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 26/43] fix: responses with multi-valued headers or cookies can
 be copied, Response accepts its constructor arguments

---
 ombott/response.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index f9dbac0..514ef78 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -84,7 +84,8 @@ class BaseResponse:
     }
 
     def __new__(cls, *a, **kw):
-        self = super().__new__(cls, *a, **kw)
+        new = super().__new__
+        self = new(cls) if new is object.__new__ else new(cls, *a, **kw)
         self.headers = HeaderDict()
         return self
 
@@ -108,12 +109,12 @@ class BaseResponse:
 
     def copy(self, cls=None):
         ''' Returns a copy of self. '''
-        cls = cls or BaseResponse
+        cls = cls or self.__class__
         assert issubclass(cls, BaseResponse)
-        copy = cls(status = self.status, headers = self.headers.copy().dict)
+        copy = cls(status = self.status)
+        copy._headers = copy.headers.dict = _copy_headers(self._headers)
         if self._cookies:
-            copy._cookies = SimpleCookie()
-            copy._cookies.load(self._cookies.output(header=''))
+            copy._cookies = _copy_cookies(self._cookies)
         return copy
 
     def __iter__(self):
-- 
2.43.0


From dfbb71e9c25773f093217b258dbe78aafb2d7f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:40 +0000
Subject: [PATCH 27/43] fix: header lists and cookie attributes are checked for
 control characters, entity headers are withheld in any letter case

---
 ombott/common_helpers.py |  8 ++++++--
 ombott/response.py       | 26 ++++++++++++++++----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 9eaaec8..f314bf6 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -236,6 +236,10 @@ def _hval(value):
     return value
 
 
+def _hvals(value):
+    return [_hval(v) for v in value] if isinstance(value, list) else _hval(value)
+
+
 @proxy('dict', 'keys pop popitem values items get'.split())
 class HeaderDict(DictMixin):
     __slots__ = ('_ts',)
@@ -273,7 +277,7 @@ class HeaderDict(DictMixin):
         return ret
 
     def setdefault(self, key, value):
-        return self._ts.dict.setdefault(key, _hval(value) if not isinstance(value, list) else value)
+        return self._ts.dict.setdefault(key, _hvals(value))
 
     def append(self, key, value):
         d = self._ts.dict
@@ -295,7 +299,7 @@ class HeaderDict(DictMixin):
             self._ts.dict.clear()
 
     def update(self, d):
-        self._ts.dict.update(d)
+        self._ts.dict.update({k: _hvals(v) for k, v in dict(d).items()})
 
     def __repr__(self):
         return f'<{self.__class__.__name__}: {self.dict}>'
diff --git a/ombott/response.py b/ombott/response.py
index 514ef78..69dc506 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -77,7 +77,7 @@ class BaseResponse:
     # Header blacklist for specific response codes
     # (rfc2616 section 10.2.3 and 10.3.5)
     bad_headers = {
-        204: {'Content-Type'},
+        204: {'Content-Type', 'Content-Length'},
         304: {'Allow', 'Content-Encoding', 'Content-Language',
               'Content-Length', 'Content-Range', 'Content-Type',
               'Content-Md5', 'Last-Modified'}
@@ -169,10 +169,10 @@ class BaseResponse:
         headers = self._headers.items()
         bad_headers = self.bad_headers.get(self._status_code)
         if bad_headers:
-            headers = (h for h in headers if h[0] not in bad_headers)
+            headers = (h for h in headers if h[0].title() not in bad_headers)
             need_ctype = False
         else:
-            need_ctype = 'Content-Type' not in self._headers
+            need_ctype = 'content-type' not in (name.lower() for name in self._headers)
         out = [
             (name, val.encode('utf8').decode('latin1'))
             for (name, vals) in headers
@@ -246,15 +246,21 @@ class BaseResponse:
         if len(value) > 4096:
             raise ValueError('Cookie value to long.')
 
-        self._cookies[name] = value
-
-        for key, value in options.items():
+        attrs = {}
+        for key, attr in options.items():
             if key == 'max_age':
-                if isinstance(value, timedelta):
-                    value = value.seconds + value.days * 24 * 3600
+                if isinstance(attr, timedelta):
+                    attr = attr.seconds + attr.days * 24 * 3600
             if key == 'expires':
-                value = http_date(value)
-            self._cookies[name][key.replace('_', '-')] = value
+                attr = http_date(attr)
+            # attributes are written as they are
+            if any(c in str(attr) for c in '\r\n\0'):
+                raise ValueError('Cookie attribute must not contain control characters: %r' % attr)
+            attrs[key.replace('_', '-')] = attr
+
+        self._cookies[name] = value
+        for key, attr in attrs.items():
+            self._cookies[name][key] = attr
 
     def delete_cookie(self, key, **kwargs):
         ''' Delete a cookie. Be sure to use the same `domain` and `path`
-- 
2.43.0


From 7e5a54b13b78466cd99014e29f73b26aec20270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 28/43] fix: a status line whose reason is a control character
 is rejected by the status setter

---
 ombott/response.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ombott/response.py b/ombott/response.py
index 69dc506..9f5bd80 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -43,7 +43,9 @@ def _copy_cookies(cookies):
 
 
 # code and reason phrase, no control characters
-_STATUS_LINE_PATT = re.compile(r'[0-9]{3} [^\x00-\x1f\x7f]*\S[^\x00-\x1f\x7f]*')
+_STATUS_LINE_PATT = re.compile(
+    r'[0-9]{3} [^\x00-\x1f\x7f]*[^\s\x00-\x1f\x7f][^\x00-\x1f\x7f]*'
+)
 
 _response_slots = (
     '_status_line', '_status_code', 'headers', '_headers',
-- 
2.43.0


From 6f898a5c44bf73f83d23928b00fe803f417a4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 29/43] fix: the critical error page survives exceptions that
 can not be printed or encoded

---
 ombott/ombott.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 35340c9..2e643d1 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -438,11 +438,17 @@ class Ombott:
             err = '<h1>Critical error while processing request: %s</h1>' \
                   % html_escape(environ.get('PATH_INFO', '/'))
             if self.config.debug:
+                try:
+                    ex = repr(_e)
+                except Exception:
+                    ex = f'<unprintable {type(_e)} object>'
                 err += (
                     '<h2>Error:</h2>\n<pre>\n%s\n</pre>\n'
                     '<h2>Traceback:</h2>\n<pre>\n%s\n</pre>\n'
-                    % (html_escape(repr(_e)), html_escape(format_exc()))
+                    % (html_escape(ex), html_escape(format_exc()))
                 )
+            # the exception may contain anything, lone surrogates too
+            err = err.encode('utf8', 'backslashreplace').decode('utf8')
             environ['wsgi.errors'].write(err)
             headers = [('Content-Type', 'text/html; charset=UTF-8')]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
-- 
2.43.0


From fae4ba5d6ccc2a9470c2ba0112e58353cbb43796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 30/43] fix: an iterable with output of an unsupported type is
 closed

---
 ombott/ombott.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ombott/ombott.py b/ombott/ombott.py
index 2e643d1..2702ac2 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -386,6 +386,8 @@ class Ombott:
                     continue                                     # -----------------^
                 new_iter = itertools.chain([first], (it.encode(charset) for it in iout))
             else:
+                if close:
+                    close()
                 out = HTTPError(500, f'Unsupported response type: {type(first)}')
                 continue                                         # -----------------^
             if close:
-- 
2.43.0


From 5472feeaa0ffae3e296bf5d7d65ae4dd87853e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 31/43] fix: a request and its copies share the body instead of
 consuming the stream of each other

---
 ombott/request_pkg/body_mixin.py | 13 ++++++++++---
 ombott/request_pkg/request.py    |  4 +++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ombott/request_pkg/body_mixin.py b/ombott/request_pkg/body_mixin.py
index 9aed1b5..627f2e9 100644
--- a/ombott/request_pkg/body_mixin.py
+++ b/ombott/request_pkg/body_mixin.py
@@ -267,7 +267,14 @@ class BodyMixin:
     def _body(self):
         # the stream of a body that failed once is already consumed partially,
         # so reading on would present the rest of it as a body
-        failed = self.environ.get('ombott.request.body_error')
+        shared = self.environ.get('ombott.request.body_shared')
+        if shared is None:
+            shared = {}
+        elif 'body' in shared:
+            # read by a copy of this request
+            body = self.environ['wsgi.input'] = shared['body']
+            return body
+        failed = self.environ.get('ombott.request.body_error') or shared.get('error')
         if failed is not None:
             self._raise(failed, RequestError)
         markup = None
@@ -287,9 +294,9 @@ class BodyMixin:
             )
             body.ombott_markup = markup
         except RequestError as err:
-            self.environ['ombott.request.body_error'] = err
+            self.environ['ombott.request.body_error'] = shared['error'] = err
             self._raise(err, RequestError)
-        self.environ['wsgi.input'] = body
+        self.environ['wsgi.input'] = shared['body'] = body
         body.seek(0)
         return body
 
diff --git a/ombott/request_pkg/request.py b/ombott/request_pkg/request.py
index 11bbd09..f260870 100644
--- a/ombott/request_pkg/request.py
+++ b/ombott/request_pkg/request.py
@@ -51,7 +51,7 @@ class BaseRequest:
     def _on_env_changed(request, key, v):
         todelete = ()
         if key == 'wsgi.input':
-            todelete = ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error')
+            todelete = ('forms', 'files', 'params', 'post', 'json', 'body', 'body_error', 'body_shared')
         elif key == 'QUERY_STRING':
             todelete = ('query', 'params')
         elif key.startswith('HTTP_'):
@@ -79,6 +79,8 @@ class BaseRequest:
         NOTE: __listeners__ are not copied
 
         """
+        # the stream can be read once only, so the body belongs to all the copies
+        self.environ.setdefault('ombott.request.body_shared', {})
         copy = self.__class__(self.environ.copy(), config = self.config)
         return copy
 
-- 
2.43.0


From eb37d47b8885784c0cce81f4120ad58e3645619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 32/43] fix: JSON error bodies are valid JSON for any body and
 for critical errors, exceptions are withheld unless debug

---
 ombott/error_render.py | 31 +++++++++++++++++++++++++++++++
 ombott/ombott.py       | 19 +++++++++++++++----
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/ombott/error_render.py b/ombott/error_render.py
index a34f530..5f4dc72 100644
--- a/ombott/error_render.py
+++ b/ombott/error_render.py
@@ -1,10 +1,41 @@
 from pathlib import Path
 import html as sanitize_html
+import json
 
 html = Path(__file__).parent / 'error.html'
 
 _html_lns = []
 
+def get_details(err_resp, debug):
+    ''' Exception and traceback as a text, forbidden unless debug. '''
+    ex, traceback = err_resp.exception, err_resp.traceback
+    if not debug:
+        forbidden = '-] Forbidden [-'
+        return (
+            'None' if ex is None else forbidden,
+            None if traceback is None else forbidden
+        )
+    try:
+        ex = repr(ex)
+    except Exception:
+        ex = f'<unprintable {type(ex)} object>'
+    return ex, traceback
+
+
+def get_jsonable(body):
+    ''' The body itself if JSON can hold it, its text otherwise. '''
+    try:
+        json.dumps(body, allow_nan=False)
+        return body
+    except Exception:
+        if isinstance(body, bytes):
+            return body.decode('utf8', 'replace')
+        try:
+            return str(body)
+        except Exception:
+            return f'<unprintable {type(body)} object>'
+
+
 def render(err_resp, url, debug):
     clean_url = sanitize_html.escape(url)
     ex = traceback = '-] Forbidden [-'
diff --git a/ombott/ombott.py b/ombott/ombott.py
index 2702ac2..d742b76 100644
--- a/ombott/ombott.py
+++ b/ombott/ombott.py
@@ -232,10 +232,11 @@ class Ombott:
 
     def default_error_handler(self, res):
         if self.request.is_json_requested:
+            exception, traceback = error_render.get_details(res, self.config.debug)
             ret = json.dumps(dict(
-                body = res.body,
-                exception = repr(res.exception),
-                traceback = res.traceback
+                body = error_render.get_jsonable(res.body),
+                exception = exception,
+                traceback = traceback
             ))
             self.response.headers['Content-Type'] = 'application/json'
         else:
@@ -452,7 +453,17 @@ class Ombott:
             # the exception may contain anything, lone surrogates too
             err = err.encode('utf8', 'backslashreplace').decode('utf8')
             environ['wsgi.errors'].write(err)
-            headers = [('Content-Type', 'text/html; charset=UTF-8')]
+            content_type = 'text/html; charset=UTF-8'
+            if (environ.get('HTTP_ACCEPT') or '').startswith('application/json'):
+                content_type = 'application/json'
+                err_resp = HTTPError(500, exception=_e, traceback=format_exc())
+                exception, traceback = error_render.get_details(err_resp, self.config.debug)
+                err = json.dumps(dict(
+                    body = 'Critical error while processing request',
+                    exception = exception,
+                    traceback = traceback
+                ))
+            headers = [('Content-Type', content_type)]
             start_response('500 INTERNAL SERVER ERROR', headers, sys.exc_info())
             return [] if head_requested else [tob(err)]
 
-- 
2.43.0


From 24c3ab4046ed53743f303d47940a67c83aa9301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 33/43] fix: headers of HTTPResponse and FileUpload objects are
 accessible from any thread

---
 ombott/common_helpers.py      | 9 +++++++++
 ombott/request_pkg/helpers.py | 4 ++--
 ombott/response.py            | 8 ++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index f314bf6..6dc04f8 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -305,6 +305,15 @@ class HeaderDict(DictMixin):
         return f'<{self.__class__.__name__}: {self.dict}>'
 
 
+class SharedHeaderDict(HeaderDict):
+    ''' A :class:`HeaderDict` that is the same for all the threads. '''
+
+    __slots__ = ()
+
+    def __init__(self, *a, **kw):
+        self._ts = types.SimpleNamespace(dict=dict(*a, **kw))
+
+
 class HeaderProperty:
 
     __slots__ = ('name', 'default', 'reader', 'writer', '__doc__')
diff --git a/ombott/request_pkg/helpers.py b/ombott/request_pkg/helpers.py
index acadd65..db7a8e5 100644
--- a/ombott/request_pkg/helpers.py
+++ b/ombott/request_pkg/helpers.py
@@ -5,7 +5,7 @@ from collections.abc import MutableMapping as DictMixin
 from unicodedata import normalize
 from urllib.parse import unquote as urlunquote
 
-from ..common_helpers import touni, HeaderDict, HeaderProperty, cached_property
+from ..common_helpers import touni, SharedHeaderDict, HeaderProperty, cached_property
 from .. import errors
 
 
@@ -262,7 +262,7 @@ class FileUpload:
         #: Raw filename as sent by the client (may contain unsafe characters)
         self.raw_filename = filename
         #: A :class:`HeaderDict` with additional headers (e.g. content-type)
-        self.headers = HeaderDict(headers) if headers else HeaderDict()
+        self.headers = SharedHeaderDict(headers) if headers else SharedHeaderDict()
 
     def get_header(self, name, default=None):
         """ Return the value of a header within the multipart part. """
diff --git a/ombott/response.py b/ombott/response.py
index 9f5bd80..362615e 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -10,7 +10,7 @@ from .common_helpers import (
     touni,
     cookie_encode,
     parse_date,
-    HeaderDict, HeaderProperty,
+    HeaderDict, SharedHeaderDict, HeaderProperty,
 )
 from .errors import OmbottException
 
@@ -71,6 +71,9 @@ class BaseResponse:
 
     headers: HeaderDict = None
 
+    # responses made by an application may be used by any thread
+    _headers_factory = SharedHeaderDict
+
     __slots__ = ()
 
     default_status = 200
@@ -88,7 +91,7 @@ class BaseResponse:
     def __new__(cls, *a, **kw):
         new = super().__new__
         self = new(cls) if new is object.__new__ else new(cls, *a, **kw)
-        self.headers = HeaderDict()
+        self.headers = cls._headers_factory()
         return self
 
     def __init__(self, body='', status=None, headers=None, **more_headers):
@@ -285,6 +288,7 @@ class BaseResponse:
 )
 class Response(BaseResponse):
     __slots__ = _response_slots
+    _headers_factory = HeaderDict
 
 
 ###############################################################################
-- 
2.43.0


From d5d4292b2320fec7e8c7791f39c75a8e757e5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 34/43] fix: text of a plain cookie is read back as it was set
 (non-ASCII, empty)

---
 ombott/request_pkg/props_mixin.py | 6 +++---
 ombott/response.py                | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index 8572da9..f8b5f07 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -61,10 +61,10 @@ class PropsMixin:
             :meth:`BaseResponse.set_cookie`). If anything goes wrong (missing
             cookie or wrong signature), return a default value. """
         value = self.cookies.get(key)
-        if secret and value:
-            dec = cookie_decode(value, secret)  # (key, value) tuple or None
+        if secret:
+            dec = cookie_decode(value, secret) if value else None  # (key, value) tuple or None
             return dec[1] if dec and dec[0] == key else default
-        return value or default
+        return default if value is None else self.cookies.getunicode(key, value)
 
     @cache_in('environ[ ombott.request.params ]', read_only=True)
     def params(self):
diff --git a/ombott/response.py b/ombott/response.py
index 362615e..e1d953a 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -263,6 +263,8 @@ class BaseResponse:
                 raise ValueError('Cookie attribute must not contain control characters: %r' % attr)
             attrs[key.replace('_', '-')] = attr
 
+        # bytes are what a cookie can hold, see `Request.get_cookie`
+        value = value.encode('utf8').decode('latin1')
         self._cookies[name] = value
         for key, attr in attrs.items():
             self._cookies[name][key] = attr
-- 
2.43.0


From a490e2bd827e7bf48e646aa375df69a41e1cb7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 35/43] fix: attributes of a replaced cookie do not survive in
 the new one

---
 ombott/response.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ombott/response.py b/ombott/response.py
index e1d953a..891d20b 100644
--- a/ombott/response.py
+++ b/ombott/response.py
@@ -265,9 +265,10 @@ class BaseResponse:
 
         # bytes are what a cookie can hold, see `Request.get_cookie`
         value = value.encode('utf8').decode('latin1')
-        self._cookies[name] = value
-        for key, attr in attrs.items():
-            self._cookies[name][key] = attr
+        # attributes of the replaced cookie (if any) must not survive
+        cookie = SimpleCookie({name: value})
+        cookie[name].update(attrs)
+        self._cookies[name] = cookie[name]
 
     def delete_cookie(self, key, **kwargs):
         ''' Delete a cookie. Be sure to use the same `domain` and `path`
-- 
2.43.0


From f87b7d6a75a092f0d4624839aad10080ae8c2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 36/43] fix: a cookie name or a malformed cookie does not make
 other cookies unreadable

---
 ombott/request_pkg/helpers.py     | 14 ++++++++++++++
 ombott/request_pkg/props_mixin.py |  5 ++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/ombott/request_pkg/helpers.py b/ombott/request_pkg/helpers.py
index db7a8e5..2494d0f 100644
--- a/ombott/request_pkg/helpers.py
+++ b/ombott/request_pkg/helpers.py
@@ -2,6 +2,7 @@ import os
 import re
 
 from collections.abc import MutableMapping as DictMixin
+from http.cookies import SimpleCookie
 from unicodedata import normalize
 from urllib.parse import unquote as urlunquote
 
@@ -141,6 +142,19 @@ class FormsDict(dict):
         return self.get(name, None)
 
 
+def parse_cookies(header):
+    ''' Yield `(name, value)` of each cookie of the `Cookie` header.
+
+        In contrast to :meth:`SimpleCookie.load` a piece that is not a cookie affects neither
+        other cookies nor their names, `$` and `path` are the names like others.
+    '''
+    value_decode = SimpleCookie().value_decode
+    for cookie in header.split(';'):
+        name, eq, value = cookie.partition('=')
+        if eq:
+            yield name.strip(' \t'), value_decode(value.strip(' \t'))[0]
+
+
 class CookieDict(dict):
     ''' This :class:`FormsDict` subclass is used to store request cookie data.
         Additionally to the normal dict-like item access methods,
diff --git a/ombott/request_pkg/props_mixin.py b/ombott/request_pkg/props_mixin.py
index f8b5f07..f36b530 100644
--- a/ombott/request_pkg/props_mixin.py
+++ b/ombott/request_pkg/props_mixin.py
@@ -1,5 +1,4 @@
 import base64
-from http.cookies import SimpleCookie
 from urllib.parse import (
     quote as urlquote,
     SplitResult as UrlSplitResult
@@ -11,6 +10,7 @@ from ..common_helpers import (
 )
 from .helpers import (
     cache_in,
+    parse_cookies,
     WSGIHeaderDict,
 )
 
@@ -52,8 +52,7 @@ class PropsMixin:
     def cookies(self):
         """ Cookies parsed into a :class:`CookieDict`. Signed cookies are NOT
             decoded. Use :meth:`get_cookie` if you expect signed cookies. """
-        cookies = SimpleCookie(self._env_get('HTTP_COOKIE', '')).values()
-        return self._cookie_factory((c.key, c.value) for c in cookies)
+        return self._cookie_factory(parse_cookies(self._env_get('HTTP_COOKIE', '')))
 
     def get_cookie(self, key, default=None, secret=None):
         """ Return the content of a cookie. To read a `Signed Cookie`, the
-- 
2.43.0


From 5d64e31bf6d813d96bf9ce3a7ad4fa2429f00768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 37/43] fix: parse_date does not depend on the time zone of the
 server

---
 ombott/common_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/common_helpers.py b/ombott/common_helpers.py
index 6dc04f8..abaf2af 100644
--- a/ombott/common_helpers.py
+++ b/ombott/common_helpers.py
@@ -6,7 +6,7 @@ import pickle
 import hmac
 import hashlib
 import email.utils
-import time
+import calendar
 from . import errors
 
 
@@ -14,7 +14,7 @@ def parse_date(ims):
     """ Parse rfc1123, rfc850 and asctime timestamps and return UTC epoch. """
     try:
         ts = email.utils.parsedate_tz(ims)
-        return time.mktime(ts[:8] + (0,)) - (ts[9] or 0) - time.timezone
+        return calendar.timegm(ts) - (ts[9] or 0)
     except (TypeError, ValueError, IndexError, OverflowError):
         return None
 
-- 
2.43.0


From e5d57ce61453e871c1219b90ac926377e7fb5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 38/43] fix: range positions of thousands of digits are
 numbers, signs and underscores are not

---
 ombott/static_stream.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index 7dc9176..78c4ee7 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -1,5 +1,6 @@
 import os
 import mimetypes
+import re
 import time
 
 import email.utils
@@ -27,13 +28,20 @@ def get_first_range(header, maxlen=0):
         # too-many/not-enougth values to unpack (invalid range)
         return
 
+    def to_int(number):
+        digits = re.fullmatch(r'[ \t]*0*([0-9]+)[ \t]*', number)
+        if not digits:
+            raise ValueError(number)
+        # int() refuses thousands of digits, the first ones tell that it is beyond any file
+        return int(digits.group(1)[:32])
+
     try:
         if not start:  # bytes=-100    -> last 100 bytes
-            start, end = max(0, maxlen - int(end)), maxlen
+            start, end = max(0, maxlen - to_int(end)), maxlen
         elif not end:  # bytes=100-    -> all but the first 99 bytes
-            start, end = int(start), maxlen
+            start, end = to_int(start), maxlen
         else:          # bytes=100-200 -> bytes 100-200 (inclusive)
-            start, end = int(start), min(int(end) + 1, maxlen)
+            start, end = to_int(start), min(to_int(end) + 1, maxlen)
         if 0 <= start < end <= maxlen:
             return start, end
     except ValueError:
-- 
2.43.0


From ecc3aa5ae33aeb286e27039e5879a1ff27ca6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 39/43] fix: static_file crashed on an empty If-Modified-Since
 header

---
 ombott/static_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index 78c4ee7..c4811a0 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -109,7 +109,7 @@ def static_file(filename, root, mimetype='auto', download=False, charset='UTF-8'
     headers['Content-Length'] = clen = stats.st_size
     headers['Last-Modified'] = email.utils.formatdate(stats.st_mtime, usegmt=True)
 
-    ims = env_get('HTTP_IF_MODIFIED_SINCE')
+    ims = env_get('HTTP_IF_MODIFIED_SINCE') or None
     if ims:
         ims = parse_date(ims.split(";")[0].strip())
     if ims is not None and ims >= int(stats.st_mtime):
-- 
2.43.0


From b0945610c437bba752f19768a717d20561cb8de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 40/43] fix: an open range followed by white space and a comma
 was refused

---
 ombott/static_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ombott/static_stream.py b/ombott/static_stream.py
index c4811a0..2bc7929 100644
--- a/ombott/static_stream.py
+++ b/ombott/static_stream.py
@@ -23,7 +23,7 @@ def get_first_range(header, maxlen=0):
 
     first_range = ranges_str.split(',', 1)[0]
     try:
-        start, end = first_range.split('-')
+        start, end = first_range.strip(' \t').split('-')
     except ValueError:
         # too-many/not-enougth values to unpack (invalid range)
         return
-- 
2.43.0


From 2b9fa91db8641b4a2aea8d571cacc4c135b2e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 41/43] fix: a filter selector is not a part of the path (no
 match on invented characters)

---
 ombott/router/radidict.py   | 22 ++++++++++++++++------
 ombott/router/radirouter.py |  4 ++--
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/ombott/router/radidict.py b/ombott/router/radidict.py
index f01290c..868bdb9 100644
--- a/ombott/router/radidict.py
+++ b/ombott/router/radidict.py
@@ -21,6 +21,11 @@ DATA = 7
 OFFSET = 8
 
 
+# filter selector within a pattern, `<` is never a part of a literal
+SELECTOR_TOKEN = '<'
+SELECTOR = SELECTOR_TOKEN + '{}>'
+
+
 # mismatch types
 class MismatchType(IntEnum):
     WHOLE = 1
@@ -381,6 +386,7 @@ class RadiDict:
         look_back = []
         do_look_back = False
         selector = None
+        is_selector = False  # does `route` start with a selector
         shift = 0  # of `i` relative to the original route, selectors make them different
         i = 0
         while True:
@@ -397,13 +403,13 @@ class RadiDict:
                 else:
                     c0 = route[i]
                     for ic, c in enumerate(idx):
-                        # the token is not a literal even if the path contains it
-                        if c == c0 and c != TOKEN:
+                        # the tokens are not literals even if the path contains them
+                        if c == c0 and c != TOKEN and (c != SELECTOR_TOKEN or is_selector):
                             kidx = ic; break  # found!
 
                 if kidx is None:  # not found
                     # maybe token or look_back
-                    if c == TOKEN:
+                    if c == TOKEN and not is_selector:
                         token_node = pnode[-1]
                         filter = token_node[FILTER]
                         if filter:
@@ -428,11 +434,13 @@ class RadiDict:
                                 look_back.append(
                                     [route, pnode, i, L, params[:], hooks[:], False, shift]
                                 )
-                                shift += i - len(str(selector))
-                                route = str(selector) + route[i:]
+                                selector = SELECTOR.format(selector)
+                                shift += i - len(selector)
+                                route = selector + route[i:]
                                 i = 0
                                 L = len(route)
                                 selector = None
+                                is_selector = True
                             continue
                         else:
                             break  # while
@@ -440,13 +448,14 @@ class RadiDict:
                         break
 
                 # regular logic
-                if idx[-1] == TOKEN:
+                if idx[-1] == TOKEN and not is_selector:
                     look_back.append(
                         [route, pnode, i, L, params[:], hooks[:], True, shift]
                     )
                 pnode = pnode[OFFSET + kidx]
                 key = pnode[KEY]
                 key_end = i + len(key)
+                is_selector = False
                 if key == route[i: key_end]:
                     i = key_end
                     h = pnode[HOOKS]
@@ -471,6 +480,7 @@ class RadiDict:
             if look_back:
                 route, pnode, i, L, params, hooks, look_type, shift = look_back.pop()
                 do_look_back = look_type
+                is_selector = False
             else:
                 return None if not allow_partial else (
                     None,
diff --git a/ombott/router/radirouter.py b/ombott/router/radirouter.py
index 541fcc4..2153247 100644
--- a/ombott/router/radirouter.py
+++ b/ombott/router/radirouter.py
@@ -1,5 +1,5 @@
 from enum import IntEnum
-from .radidict import RadiDict, DATA, HOOKS
+from .radidict import RadiDict, DATA, HOOKS, SELECTOR
 from .filter_factory import FilterFactory
 from .errors import RouteBuildError, RouteMethodError, RouteSyntaxError
 from .parser import Parser
@@ -195,7 +195,7 @@ class Route:
         filters_out = []
         anon_counter = 0
         for part, param, filter, filter_args, filter_selector in cls.parser.iter_parse(rule):
-            filter_selector = filter_selector or ''
+            filter_selector = SELECTOR.format(filter_selector) if filter_selector else ''
             if not part:  # it is param or/and filter
                 part = '\r'
                 if not param:
-- 
2.43.0


From 6409a489a8c634540cfe3edc54714aba8647697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 42/43] fix: rules of different applications may be parsed at
 the same time by different threads

---
 ombott/router/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ombott/router/parser.py b/ombott/router/parser.py
index 26efea7..38cdd63 100644
--- a/ombott/router/parser.py
+++ b/ombott/router/parser.py
@@ -16,11 +16,11 @@ class Parser:
         self._rule = None
 
     def iter_parse(self, rule):
-        self._rule = rule
-        self._stream = SymStream(rule)
-        yield from self._iter_parse()
-        self._rule = None
-        self._stream = None
+        # the parser is shared by all the routers of the process, the state of parsing is not
+        run = self.__class__()
+        run._rule = rule
+        run._stream = SymStream(rule)
+        yield from run._iter_parse()
 
     def _iter_parse(self):
         '''
-- 
2.43.0


From 30349d30789888e669f1bbfa4fcc990a76a85a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 43/43] fix: a filter used by several threads at once is made
 once

---
 ombott/router/filter_factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ombott/router/filter_factory.py b/ombott/router/filter_factory.py
index 2f34af9..a25f032 100644
--- a/ombott/router/filter_factory.py
+++ b/ombott/router/filter_factory.py
@@ -91,5 +91,5 @@ class FilterFactory:
                 if not tmp:
                     return None, 0, None
                 return tmp.group(), tmp.end(), None
-        cls._filter_cache[fkey] = [handler, f_out]
-        return handler, f_out
+        # another thread may have made the same filter meanwhile, there must be one of them only
+        return cls._filter_cache.setdefault(fkey, [handler, f_out])
-- 
2.43.0

