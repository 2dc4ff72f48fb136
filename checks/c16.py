"""C16: static_file serves nothing from outside its root and opens nothing there."""
import itertools
import mimetypes
import os
import random
import re
import shutil
import sys
import tempfile

from vlib import autodict as AD
from vlib import core
from vlib import wsgi as W

W.NOISE = True
W.AMBIENT = True
W.NO_NOISE = {'HTTP_RANGE', 'HTTP_IF_MODIFIED_SINCE', 'HTTP_IF_NONE_MATCH'}
PID = 'C16'
LEVEL = 'exploration'
RULE = ('a case is a root (spelling, working directory), a requested name, a method and request headers; static_file is called inside a request of a real application over a scratch tree in which every file holds a unique token and decoys lie beside and above the root; '
        'the monitors are the response (status, tokens in headers and body) and every path opened meanwhile (audit events). Non-trivial: the name contains a separator, a dot segment or is absolute')
ASSUMPTIONS = ['symbolic links inside the root are the choice of whoever put them there: locations are compared as text (a symlinked root included)',
               'only names made of plain segments of existing files have to be served']
REQUIRED = ('calls', 'served', 'denied_403', 'denied_404', 'plain_served', 'outside_targets', 'existing_outside_targets', 'sibling_prefix_targets', 'absolute_names', 'backslash_names', 'opens_seen', 'roots', 'relative_roots', 'cwd_changes', 'through_route', 'head', 'with_range',
            'directories', 'odd_names', 'symlinked_root', 'long_names', 'aged')

# ---------------------------------------------------------------- monitor of opened paths
OPENED = []
ACTIVE = [0]


def audit(event, args):
    if event == 'open' and ACTIVE[0] and isinstance(args[0], (str, bytes, os.PathLike)):
        p = os.fsdecode(args[0])
        OPENED.append(os.path.join(os.getcwd(), p))


sys.addaudithook(audit)


class watched:
    def __enter__(self):
        del OPENED[:]
        ACTIVE[0] += 1

    def __exit__(self, *a):
        ACTIVE[0] -= 1
        return False


# ---------------------------------------------------------------- the tree
INSIDE = ['a.txt', 'sub/b.txt', 'sub/deep/c.txt', 'index.html', '.hidden', 'sp ace.txt', 'sub/..b', '...', 'bs\\name.txt', '~', '%2e%2e', 'root/a.txt', 'root/secret.txt', 'etc/passwd', 'ROOT/a.txt', 'a.txt.gz', 'sub/a', '\u0444/\u0444.txt', 'tilde~', '$HOME',
          '..x/x.txt', 'x../x.txt', 'sub/ ', 'secret', '-', 'a;b', 'tmp/x.txt']
OUTSIDE = ['secret.txt', 'a.txt', 'index.html', 'sub/b.txt', 'root-evil/a.txt', 'root-evil/secret.txt', 'root2/a.txt', 'root2/secret.txt', 'root.bak', 'rootx', 'root_/a.txt', 'ROOT/secret.txt', 'Root/secret.txt', 'roo/secret.txt', 'r/secret.txt', 'root /secret.txt', 'root\\secret.txt', 'root\\/secret.txt',
           'root~/secret.txt', 'root\u0301/secret.txt', 'home/secret.txt', 'root..secret', 'root.txt', 'cwd/secret.txt', 'cwd/a.txt', 'etc/passwd', 'secret', 'c.txt', 'cwd2/secret.txt', 'x.txt', '%2e%2e', '.hidden', 'roota.txt', 'rootsecret.txt', 'root.html', 'root.htm', 'root.gz', 'root.br', 'root.json', 'rootindex.html', 'root.index.html', 'cwd/root.html', 'cwd2/root.html', 'root-evil/sub/b.txt']


class Tree:
    """scratch/w/root is the root; everything else is outside."""

    def __init__(self):
        import ombott
        mimetypes.init()
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='c16.'))
        self.w = os.path.join(self.dir, 'w')
        self.token = {}
        self.n = self.aged = 0
        for name in INSIDE:
            self.put(os.path.join(self.w, 'root', name))
        for name in OUTSIDE:
            self.put(os.path.join(self.w, name))
        self.put(os.path.join(self.dir, 'secret.txt'))
        self.put(os.path.join(self.dir, 'a.txt'))
        # another complete pair for relative roots, and roots with peculiar names
        for base in ('cwd', 'cwd2'):
            for name in ('a.txt', 'sub/b.txt', 'sub/deep/c.txt'):
                self.put(os.path.join(self.w, base, 'root', name))
            for name in ('root-evil/secret.txt', 'rootx', 'secret.txt', 'root2/secret.txt', 'sub/b.txt'):
                self.put(os.path.join(self.w, base, name))
        for base in ('bs', 'bs\\', 'dot.', 'dot', ' lead', 'lead', 'trail ', 'trail', '~', '$HOME', '%41', 'A', 'a:b', 'n\u0444', 'x[1]', '..r'):
            for name in ('a.txt', 'secret.txt' if base in ('bs', 'dot', 'lead', 'trail', 'A') else 'b.txt'):
                self.put(os.path.join(self.w, 'odd', base, name))
        os.symlink('root', os.path.join(self.w, 'link'))
        self.put(os.path.join(self.w, 'link-evil', 'secret.txt'))
        os.mkdir(os.path.join(self.w, 'root', 'empty'))
        self.app = app = ombott.Ombott()
        self.job = None

        def serve(name='', **kw):
            return ombott.static_file(self.job[0] if self.job[0] is not None else name, root=self.job[1], **self.job[2])
        app.route('/call', ['GET', 'HEAD', 'POST'], serve)
        app.route('/s/<name:path>', ['GET', 'HEAD', 'POST'], serve)
        self.home = os.environ.get('HOME')
        self.cwd = os.getcwd()
        os.environ['HOME'] = os.path.join(self.w, 'home')
        os.environ['VP_UP'] = '..'

    def put(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if path in self.token:
            return
        self.n += 1
        tok = 'TOKEN<%d>' % self.n
        with open(path, 'w') as f:
            f.write(tok)
        self.token[path] = tok

    def close(self):
        os.chdir(self.cwd)
        os.environ.pop('VP_UP', None)
        if self.home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = self.home
        shutil.rmtree(self.dir, ignore_errors=True)


# (root as given, working directory, directory it is), relative to w; '@' stands for the absolute path of w
ROOTS = [('@/root', '', 'root'), ('@/root/', '', 'root'), ('@/root//', '', 'root'), ('@/root/.', '', 'root'), ('@/root/sub/..', '', 'root'), ('@/./root', '', 'root'), ('@//root', '', 'root'), ('@/root/../root', '', 'root'), ('@/root2/../root/', '', 'root'),
         ('root', '', 'root'), ('root/', '', 'root'), ('./root', '', 'root'), ('./root//', '', 'root'), ('', 'root', 'root'), ('.', 'root', 'root'), ('./', 'root', 'root'), ('..', 'root/sub', 'root'), ('../', 'root/sub', 'root'), ('../root', 'cwd', 'root'), ('../../root/', 'root/sub', 'root'),
         ('root', 'cwd', 'cwd/root'), ('root', 'cwd2', 'cwd2/root'), ('root/', 'cwd', 'cwd/root'), ('./root/', 'cwd2', 'cwd2/root'), ('@/root/sub', '', 'root/sub'), ('root/sub/', '', 'root/sub'), ('@/link', '', 'link'), ('link/', '', 'link'),
         ('@/odd/bs\\', '', 'odd/bs\\'), ('bs\\', 'odd', 'odd/bs\\'), ('@/odd/bs', '', 'odd/bs'), ('@/odd/dot.', '', 'odd/dot.'), ('dot.', 'odd', 'odd/dot.'), ('@/odd/ lead', '', 'odd/ lead'), (' lead', 'odd', 'odd/ lead'), ('@/odd/trail ', '', 'odd/trail '), ('trail ', 'odd', 'odd/trail '),
         ('~', 'odd', 'odd/~'), ('@/odd/$HOME', '', 'odd/$HOME'), ('$HOME', 'odd', 'odd/$HOME'), ('@/odd/%41', '', 'odd/%41'), ('a:b', 'odd', 'odd/a:b'), ('@/odd/n\u0444/', '', 'odd/n\u0444'), ('@/odd/x[1]', '', 'odd/x[1]'), ('..r', 'odd', 'odd/..r'), ('@/nowhere', '', 'nowhere'), ('@/root/a.txt', '', 'root/a.txt'),
         ('@', '', ''), ('..', 'cwd', '')]
MAIN = ROOTS[:20]

SEGMENTS = ['a.txt', 'sub', 'b.txt', '..', '.', '', 'root-evil', 'root2', 'root', 'secret.txt', 'w', 'rootx', 'root.bak', '@', 'cwd', 'ROOT', 'deep']
SEPARATORS = ['/', '\\', '//', '/\\', '\\/', '/./']
ODD_SEGMENTS = ['%2e%2e', '%2e', '%2f', '..%2f', '%2e%2e%2f', '%252e%252e', '...', '....', '..\0', '\0', '.. ', ' ..', '..;', '..;x', '\u2025', '\uff0e\uff0e', '\u2024\u2024', '\uff0f', '\u2215', '~', '~root', '$HOME', '${HOME}', '$VP_UP', '${VP_UP}', '%VP_UP%', '$VP_UP/..', '{VP_UP}', '%(VP_UP)s', '$(pwd)', '`pwd`', '%HOME%', '*', '?', 'a.txt\0', 'secret.txt\0.jpg', 'A.TXT', 'a.txt.', 'a.txt ',
                'a.txt/', 'a.txt::$DATA', 'C:', 'c:\\', '\\\\host', 'file:', 'file://', '\ud800', '\udcff', '\t', '\n', '\r\n', 'x' * 300, '-', '', 'root\u0301', 'Root', 'link', 'link-evil', 'odd', 'bs\\name.txt', 'root\\secret.txt', '.hidden', 'etc', 'passwd', 'proc', 'self', 'environ', 'home', '\xc0\xae\xc0\xae',
                '..\\', '\\..', '..\u200b', '.\u200b.', '\u202e..', '||', '&', '(..)', '[..]', '{..}', '"', "'", '`', '..\x7f', 'empty', '..\uff3c', '\u29f5']


def expand(name, tree):
    return name.replace('@', tree.w)


def inside(path, root):
    return path.startswith(root + '/') if root != '/' else path != '/'


def tree_of(ctx):
    t = ctx.__dict__.get('tree')
    if t is None:
        t = ctx.tree = Tree()
    return t


def run_case(ctx, case):
    """('call', root index, name, method, headers, options, route[, number of roots used before])"""
    _, ri, name, method, headers, opts, via = case[:7]
    tree = tree_of(ctx)
    if len(case) > 7:
        # a process that has served from very many directories
        while tree.aged < case[7]:
            tree.aged += 1
            tree.job = ('x%d.txt' % (tree.aged % 7), tree.w + '/root/r%d' % tree.aged + '/' * (tree.aged % 2), {})
            W.call(tree.app, W.environ('GET', '/call'))
        ctx.obs['aged'] += 1
    given, cwd, where = ROOTS[ri]
    real = os.path.normpath(os.path.join(tree.w, where))
    name = expand(name, tree)
    if via == 'route':
        try:
            raw = b'/s/' + name.encode('utf8', 'surrogateescape')
        except UnicodeError:
            via = 'call'
    os.chdir(os.path.join(tree.w, cwd))
    tree.job = (None if via == 'route' else name, expand(given, tree), dict(opts))
    nontrivial = '/' in name or '\\' in name or '..' in name
    ctx.seen(case, nontrivial, 'root%d' % ri if ri < 20 else 'odd-root')
    ctx.obs['calls'] += 1
    env = W.environ(method, raw if via == 'route' else '/call', headers=dict(headers))
    with watched():
        res = W.call(tree.app, env)
        opened = list(OPENED)

    def bad(key, msg):
        ctx.violation(key, 'static_file(%r, root=%r) in %r: %s [%s]' % (name, tree.job[1], cwd or '.', msg, res.brief()[:400]), case)
    if via == 'route':
        ctx.obs['through_route'] += 1
        if not res.sr or (res.code in (400, 404, 405) and not opened and 'File does not exist' not in repr(res.body)):
            pass    # may be the answer of the router (a path that is no text, or no match)
    ctx.obs['head'] += method == 'HEAD'
    ctx.obs['with_range'] += any(k == 'Range' for k, _ in headers)
    ctx.obs['opens_seen'] += len(opened)
    # where the name points to
    target = os.path.normpath(os.path.join(real, name.strip('/\\')))
    is_in = inside(target, real)
    if not is_in:
        ctx.obs['outside_targets'] += 1
        ctx.obs['existing_outside_targets'] += target in tree.token
        ctx.obs['sibling_prefix_targets'] += target.startswith(real) and target != real
    ctx.obs['absolute_names'] += name.startswith('/')
    ctx.obs['backslash_names'] += '\\' in name
    ctx.obs['directories'] += '\0' not in target and is_in and utf8(target) and len(target) < 255 and os.path.isdir(target)
    if where == 'link':
        ctx.obs['symlinked_root'] += 1
    # every opened path
    realroot = os.path.realpath(real)
    for p in opened:
        q = os.path.normpath(p)
        if inside(q, real) or inside(os.path.realpath(p), realroot):
            continue
        if harmless(q, tree):
            continue
        return bad('opened-outside', 'opened %r' % p)
    if res.escaped is not None or res.iter_exc is not None or res.code is None:
        return bad('failed', 'exception %r' % (res.escaped or res.iter_exc,))
    # tokens of files outside must not show up anywhere
    text = repr(res.headers) + res.body.decode('latin1')
    served = re.findall(r'TOKEN<\d+>', text)
    for tok in served:
        path = next(p for p, t in tree.token.items() if t == tok)
        if not inside(path, realroot):
            return bad('leaked', 'the content of %r was sent' % path)
    code = res.code
    if code in (200, 206, 304, 416):
        ctx.obs['served'] += 1
        if not is_in:
            return bad('served-outside', 'answered %s for a name that means %r' % (res.status, target))
        if served and tree.token.get(os.path.realpath(target)) not in served:
            return bad('other-file', 'the name means %r, sent is %r' % (target, served))
        if tree.token.get(os.path.realpath(target)) is None:
            return bad('served-nothing', 'answered %s for %r, where no file is' % (res.status, target))
    elif code in (403, 404):
        ctx.obs['denied_%d' % code] += 1
    elif via == 'route' and code in (400, 405):
        pass
    else:
        return bad('status', 'neither served nor 403 or 404')
    plain = all(re.fullmatch(r'[A-Za-z]+(\.[a-z]+)?', s) for s in name.split('/'))
    if plain and target in tree.token and is_in or plain and where == 'link' and os.path.realpath(target) in tree.token:
        ctx.obs['plain_served'] += 1
        if code not in (200, 206, 304, 416):
            return bad('not-served', 'a plain name of an existing file was denied')
        if code == 200 and method == 'GET' and res.body.decode() != tree.token[os.path.realpath(target)]:
            return bad('wrong-content', 'content %r' % res.body[:100])


def utf8(s):
    try:
        s.encode('utf8')
        return True
    except UnicodeError:
        return False


def harmless(path, tree):
    """Files the interpreter or the standard library read for themselves."""
    if path.startswith(tree.dir):
        return False
    return path.endswith(('.py', '.pyc', 'mime.types', '.so')) or path.startswith((core.REPO + '/ombott/', sys.prefix + '/', sys.base_prefix + '/lib/python'))


# ---------------------------------------------------------------- workload
def shards(ctx):
    return [('all', i) for i in range(8)] + [('rnd', i) for i in range(8 if ctx.quick else 32)]


HEADERS = [(), (), (), (('Range', 'bytes=0-3'),), (('Range', 'bytes=99-'),), (('If-Modified-Since', 'Fri, 01 Jan 2100 00:00:00 GMT'),), (('If-Modified-Since', 'Thu, 01 Jan 1970 00:00:00 GMT'),)]
OPTIONS = [(), (), (), (('download', True),), (('download', '../../secret.txt'),), (('mimetype', None),), (('mimetype', 'text/plain'),), (('charset', None),)]


def run_shard(ctx, shard):
    kind, idx = shard
    try:
        {'all': exhaustive, 'rnd': rnd}[kind](ctx, ctx.rng, idx)
    finally:
        if ctx.__dict__.get('tree') is not None:
            ctx.tree.close()
            ctx.tree = None


def exhaustive(ctx, rng, idx):
    """All names of few segments under every root."""
    k = 0
    ctx.obs['roots'] += len(ROOTS)
    for n in (1, 2, 3):
        segs = SEGMENTS if n < 3 or not ctx.quick else SEGMENTS[:12]
        for parts in itertools.product(segs, repeat=n):
            k += 1
            if k % 8 != idx:
                continue
            for sep in SEPARATORS if n == 2 or not ctx.quick else [rng.choice(SEPARATORS)]:
                if n == 1 and sep != '/' and ctx.quick and rng.random() < .5:
                    pass
                core_name = sep.join(parts)
                for pre in ('', '/', '../', '\\') if n < 3 else ('',):
                    name = pre + core_name
                    ris = range(len(ROOTS)) if n < 2 else rng.sample(range(len(ROOTS)), 3 if n == 2 else 2)
                    for ri in ris:
                        one(ctx, rng, ri, name)
    # plain names under every root, twice with another working directory in between
    for ri in range(idx, len(ROOTS), 4):
        for name in ('a.txt', 'sub/b.txt', 'sub/deep/c.txt', 'index.html'):
            for rj in (ri, rng.randrange(len(ROOTS)), ri):
                run_case(ctx, ('call', rj, name, 'GET', (), (), 'call'))
    # every decoy reached from every root by its relative path in several spellings
    tree = tree_of(ctx)
    for ri in range(idx, len(ROOTS), 8):
        real = os.path.normpath(os.path.join(tree.w, ROOTS[ri][2]))
        for path in list(tree.token):
            rel = os.path.relpath(path, real)
            a = path.replace(tree.w, '@')
            for name in {rel, rel.replace('/', '\\'), 'sub/../' + rel, './' + rel, '/' + rel, a, a.lstrip('/'), rel.replace('../', '..//'), rel.replace('../', '.././'), 'nowhere/../' + rel, rel + '/', '//' + a, 'a.txt/../' + rel, rel.replace('..', '%2e%2e'), rel.replace('/', '%2f'), rel.replace('..', '$VP_UP'), rel.replace('..', '${VP_UP}'),
                         os.path.basename(path), '\\' + rel, rel.replace('..', '. .'), '@/root/' + rel, 'root/' + rel, rel.replace('../', '..\\/'), 'file://' + a, '~/' + rel, a + '\0.txt', rel.replace('../', '....//'), rel.replace('../', '..././')}:
                one(ctx, rng, ri, name)


def rnd(ctx, rng, idx):
    ctx.obs['cwd_changes'] += 1
    for _ in range(ctx.scale(6000, 40000)):
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 9])
        name = rng.choice(['', '', '', '/', '//', '\\', '../', '@/', '@/root/', '@/root-evil/', '..\\', 'sub/../'])
        for i in range(n):
            name += (rng.choice(SEPARATORS) if i else '') + (AD.spice(rng, rng.choice(ODD_SEGMENTS + SEGMENTS), 1) if rng.random() < .04 else rng.choice(ODD_SEGMENTS) if rng.random() < .25 else rng.choice(SEGMENTS + ['..'] * 4))
        name += rng.choice(['', '', '', '', '/', '\\', '//', '/.', '/..', '\0', ' '])
        ctx.obs['odd_names'] += 1
        one(ctx, rng, rng.randrange(len(ROOTS)), name)
    if idx % 2:
        ctx.aged = int(10 ** rng.uniform(1.5, 3.3 + (not ctx.quick)))
        exhaustive(ctx, rng, idx // 2 % 8)
        ctx.aged = 0
    # names near the longest path there is, and beyond
    tree = tree_of(ctx)
    for _ in range(ctx.scale(250, 2000)):
        ri = rng.randrange(len(ROOTS))
        real = os.path.normpath(os.path.join(tree.w, ROOTS[ri][2]))
        rel = os.path.relpath(rng.choice(list(tree.token)), real)
        pads = rng.choice([['sub/../'], ['./'], ['nowhere/../'], ['/'], ['sub/deep/../../'], ['sub/../', './', '/', './/', 'a.txt/../'], ['../' + os.path.basename(real) + '/']])
        n = int(10 ** rng.uniform(1.5, 3.8))
        name = ''
        while len(name) < n:
            name += rng.choice(pads)
        if rng.random() < .2:
            name = 'x/' * (n // 8) + '../' * (n // 8)
        ctx.obs['long_names'] += 1
        one(ctx, rng, ri, name + rel)


def one(ctx, rng, ri, name):
    ctx.obs['relative_roots'] += not ROOTS[ri][0].startswith('@')
    run_case(ctx, ('call', ri, name, rng.choice(['GET', 'GET', 'GET', 'HEAD', 'POST']), rng.choice(HEADERS), rng.choice(OPTIONS), 'route' if rng.random() < .15 else 'call') + ((ctx.aged,) if ctx.__dict__.get('aged') else ()))
