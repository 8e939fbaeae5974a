"""C13: transform() and get_in() against a persistent tree model.

Model nodes carry the real object they stand for.  A node the model leaves untouched must be the identical real object in
the result; a changed node is compared child by child.  Commands log the value they receive."""
import functools, re
import pyrsistent as P
from pyrsistent._pvector import python_pvector
from .base import *


class Rec(P.PRecord):
    a = P.field()
    b = P.field()
    c = P.field()
    name = P.field()


class Cls(P.PClass):
    a = P.field()
    b = P.field()
    c = P.field()
    name = P.field()


class CVec(P.CheckedPVector):
    pass


class CMap(P.CheckedPMap):
    pass


FIELDS = ['a', 'b', 'c', 'name']
VT = type(P.pvector())
PT = type(python_pvector())


class N:
    """Model node; kind 'leaf' (real is the object), 'map' (kids dict), 'vec' (kids list); typ = real type."""
    __slots__ = ('kind', 'typ', 'kids', 'real')

    def __init__(self, kind, typ, kids, real=None):
        self.kind, self.typ, self.kids, self.real = kind, typ, kids, real

    def __repr__(self):
        return 'N<%s %s>' % (self.kind, self.real if self.kind == 'leaf' else self.kids)


NOTHING = object()


class W:
    """What a wrapping command returns."""
    __slots__ = ('x', 'tag')

    def __init__(self, x, tag):
        self.x, self.tag = x, tag

    def __repr__(self):
        return 'W(%s,%s)' % (brief(self.x, 30), self.tag)


def wrap(real):
    """Model node of an existing real object."""
    t = type(real)
    if isinstance(real, P.PVector):
        return N('vec', t, [wrap(x) for x in real], real)
    if isinstance(real, P.PMap):
        return N('map', t, {k: wrap(x) for k, x in real.iteritems()}, real)
    if isinstance(real, Cls):
        return N('map', t, {k: wrap(getattr(real, k)) for k in FIELDS if hasattr(real, k)}, real)
    return N('leaf', t, None, real)


KEYS = ['a', 'b', 'c', 'name', 'x1', 'x2', 'xx', '', 1, 2, 0, None, (1, 2)]


def gen(rng, ctx, depth):
    r = rng.random()
    if depth == 0 or r < 0.15:
        return rng.choice([lambda: E(), lambda: rng.randrange(50), lambda: 'txt', lambda: None, lambda: P.s(1, 2), lambda: 0, lambda: (1, 2), lambda: [1]])()
    n = rng.choice([0, 1, 2, 3, 3, 4, 6]) if rng.random() < 0.95 else rng.choice([31, 32, 33, 40, 65])
    sub = lambda: gen(rng, ctx, depth - 1)
    if r < 0.45:
        uni = KEYS + [K('k%d' % i, 5) for i in range(3)]
        d = {rng.choice(uni): sub() for _ in range(n)}
        return P.pmap(d) if rng.random() < 0.9 else CMap(d)
    if r < 0.78:
        l = [sub() for _ in range(n)]
        return rng.choice([P.pvector, P.pvector, P.pvector, python_pvector, CVec])(l)
    kw = {k: sub() for k in FIELDS if rng.random() < 0.7}
    return Rec(**kw) if r < 0.9 else Cls(**kw)


class Impossible(Exception):
    """The model says that the transformation has to raise."""


class Pred1:
    def __init__(self, f):
        self.f = f

    def __call__(self, k):
        return self.f(k)

    def two(self, k, v):
        return self.f(k)


class Pred2:
    def __init__(self, f):
        self.f = f

    def __call__(self, k, v):
        return self.f(k, v)

    def extra(self, k, v, unused=None):
        return self.f(k, v)


def truth_of(rng, f):
    """The predicate, answering with something true or false instead of True or False."""
    if rng.random() < 0.6:
        return f
    t, n = rng.choice([1, 2, 'yes', [0], (None,), 0.5, object()]), rng.choice([0, None, '', [], (), 0.0])
    return (lambda k: t if f(k) else n) if f.__code__.co_argcount == 1 else (lambda k, v: t if f(k, v) else n)


def value_pred(rng, keys):
    """A binary predicate that looks at the value, sometimes at the key too."""
    x = rng.choice([None, 0, 7, 'txt', 'new', 1, 3, True])
    g, h, name = rng.choice([
        (lambda v: type(v) is type(x) and v == x, lambda c: c.kind == 'leaf' and c.typ is type(x) and c.real == x, 'equals %r' % (x,)),
        (lambda v: type(v) is type(x) and v == x, lambda c: c.kind == 'leaf' and c.typ is type(x) and c.real == x, 'equals %r' % (x,)),
        (lambda v: isinstance(v, int), lambda c: c.kind == 'leaf' and issubclass(c.typ, int), 'int'),
        (lambda v: type(v) is E, lambda c: c.typ is E, 'E'),
        (lambda v: isinstance(v, P.PMap), lambda c: c.kind == 'map' and c.typ is not Cls, 'map'),
        (lambda v: isinstance(v, P.PVector), lambda c: c.kind == 'vec', 'vector'),
        (lambda v: v is None, lambda c: c.kind == 'leaf' and c.typ is type(None), 'None')])
    if keys and rng.random() < 0.4:
        chosen = [k for k in keys if rng.random() < 0.6]
        f = lambda k, v: any(k == c for c in chosen) and g(v)
        m = lambda k, c: any(k == d for d in chosen) and h(c)
    else:
        f, m = (lambda k, v: g(v)), (lambda k, c: h(c))
    f = truth_of(rng, f)
    form = rng.randrange(4)
    p = f if form == 0 else Pred2(f) if form == 1 else Pred2(f).extra if form == 2 else functools.partial(lambda z, k, v: f(k, v), 1)
    return p, m, 'value:' + name


def matcher(rng, node):
    """-> (path element, model predicate on (key, real value or None)) ; model predicate None = literal key"""
    keys = list(range(len(node.kids))) if node.kind == 'vec' else list(node.kids) if node.kind == 'map' else []
    r = rng.randrange(14)
    if r == 0:
        return P.ny, (lambda k, c: True), 'ny'
    if r == 1:
        e = rng.choice(['a', '.*', 'x', 'x.', 'x[12]$', 'na', 'ame', '^b', ''])
        return P.rex(e), (lambda k, c: isinstance(k, str) and re.match(e, k) is not None), 'rex:' + e
    if r in (2, 3):
        chosen = [k for k in keys if rng.random() < 0.5]
        f0 = lambda k: any(k == c for c in chosen)
        f = truth_of(rng, f0)
        form = rng.randrange(6)
        if form == 0:
            p = lambda k: f(k)
        elif form == 1:
            p = lambda k, v: f(k)
        elif form == 2:
            p = Pred1(f)
        elif form == 3:
            p = Pred1(f).two
        elif form == 4:
            p = lambda k, unused=3: f(k)
        else:
            p = functools.partial(lambda extra, k: f(k), 1)
        return p, (lambda k, c: f0(k)), 'pred%d' % form
    if r == 4:
        if rng.random() < 0.2:
            return (lambda k: False), (lambda k, c: False), 'never'
        return value_pred(rng, keys)
    if r == 5:
        return (lambda a, b, c: True), Impossible, 'arity3'
    if r == 6 and rng.random() < 0.3:
        return (lambda: True), Impossible, 'arity0'
    if node.kind == 'vec':
        n = len(keys)
        i = rng.choice(keys + [0, -1]) if keys and rng.random() < 0.8 else rng.choice([n, n, n + 1, -n - 1, -1, 0, 5])
        if rng.random() < 0.2 and keys:
            i = rng.choice(keys) - n
        return i, None, i
    if node.kind == 'map':
        if keys and rng.random() < 0.7:
            k = rng.choice(keys)
            return (twin(rng, k) if rng.random() < 0.3 else k), None, k
        k = rng.choice(FIELDS if node.typ in (Rec, Cls) and rng.random() < 0.9 else KEYS + ['nope', K('k0', 5), K('zz', 5)])
        return k, None, k
    return rng.choice(['a', 0, 'name']), None, 'in-leaf'


def key_of(node, k):
    """The key kept in the map for an equal k."""
    return k


def child(node, k):
    """-> child node or NOTHING (absent literal)"""
    if node.kind == 'leaf':
        raise Impossible('path leads through a leaf')
    if node.kind == 'vec':
        if not isinstance(k, int):
            raise Impossible('unspecified' if isinstance(k, float) else 'index type')
        n = len(node.kids)
        return node.kids[k] if -n <= k < n else NOTHING
    if node.typ is Cls and k not in node.kids:
        raise Impossible('no such attribute')
    return node.kids.get(k, NOTHING)


def empty_map():
    return N('map', P.PMap, {})


def fresh_path(rng, node, depth):
    """A path specification with model predicates, walking the model."""
    path = []
    while len(path) < depth:
        el = matcher(rng, node)
        path.append(el)
        nxt = None
        if el[1] is None:
            try:
                nxt = child(node, el[0])
            except (Impossible, TypeError):
                break
            if nxt is NOTHING:
                nxt = empty_map()
        elif el[1] is not Impossible and node.kind != 'leaf':
            ks = [k for k in (range(len(node.kids)) if node.kind == 'vec' else node.kids) if el[1](k, node.kids[k])]
            if ks:
                nxt = node.kids[rng.choice(ks)]
        if nxt is None or (nxt.kind == 'leaf' and rng.random() < 0.95):
            break
        node = nxt
    return path


def commands(rng, log):
    """-> (real command, model command or None for constants, name, constant node)"""
    r = rng.randrange(12)
    if r < 3:
        tag = rng.randrange(3)

        def wrapit(x):
            log.append(x)
            return W(x, tag)
        return wrapit, (lambda node: N('leaf', W, (node, tag), None)), 'wrap'
    if r == 3:
        def ident(x):
            log.append(x)
            return x
        return ident, (lambda node: node), 'identity'
    if r == 4:
        def some(x):
            log.append(x)
            return x if isinstance(x, (E, str, type(None))) else W(x, 'some')
        return some, (lambda node: node if node.kind == 'leaf' and issubclass(node.typ, (E, str, type(None))) else N('leaf', W, (node, 'some'), None)), 'partial'
    if r == 5:
        def incr(x):
            log.append(x)
            return P.inc(x)

        def mincr(node):
            if node.kind == 'leaf' and node.typ in (int, bool):
                return N('leaf', int, None, node.real + 1)
            raise Impossible('inc of a non-number')
        return incr, mincr, 'inc'
    if r in (6, 7, 8):
        return P.discard, 'discard', 'discard'
    c = rng.choice([lambda: E(), lambda: 7, lambda: None, lambda: P.m(q=1), lambda: P.v(), lambda: P.m(), lambda: 'new'])()
    return c, ('const', wrap(c)), 'const'


class Model:
    def __init__(self):
        self.calls = []           # nodes commands must have been called with
        self.may_raise = False

    def apply(self, node, path, cmd):
        if not path:
            if cmd == 'discard':
                raise Impossible('discard at the root')
            if isinstance(cmd, tuple):
                c = cmd[1]
                return node if c.kind == 'leaf' and node.kind == 'leaf' and node.kids is None and c.real is node.real else c
            self.calls.append(node)
            return cmd(node)
        el, pred, _ = path[0]
        if pred is Impossible:
            raise Impossible('arity')
        if node.kind == 'leaf':
            raise Impossible('unspecified' if isinstance(node.real, P.PSet) else 'path leads through a leaf')
        rest = path[1:]
        if pred is None:
            c = child(node, el)
            matches = [(el, c)]
        else:
            if node.typ is Cls:
                raise Impossible('no key matching in classes')
            matches = [(k, c) for k, c in (list(enumerate(node.kids)) if node.kind == 'vec' else list(node.kids.items())) if pred(k, c)]
        kids = list(node.kids) if node.kind == 'vec' else dict(node.kids)
        changed = False
        if not rest and cmd == 'discard':
            if node.kind == 'vec':
                for k, c in matches:
                    if c is NOTHING:
                        raise Impossible('discard out of range')
                n = len(kids)
                gone = {k % n for k, _ in matches}
                kids = [c for i, c in enumerate(kids) if i not in gone]
                changed = bool(gone)
            else:
                for k, c in matches:
                    if c is not NOTHING:
                        del kids[k]
                        changed = True
        else:
            for k, c in matches:
                missing = c is NOTHING
                if missing:
                    if cmd == 'discard':
                        continue
                    c = empty_map()
                new = self.apply(c, rest, cmd)
                if new is c and not missing:
                    continue
                changed = True
                if node.kind == 'vec':
                    n = len(kids)
                    if -n <= k < n:
                        kids[k] = new
                    elif k == n:
                        kids.append(new)
                    else:
                        raise Impossible('set out of range')
                else:
                    if node.typ in (Rec, Cls) and k not in FIELDS:
                        raise Impossible('no such field')
                    kids[k] = new
        return N(node.kind, node.typ, kids) if changed else node


def match(ctx, real, node, path=''):
    ctx.counters['nodes'] += 1
    if node.kind == 'leaf' and node.kids is not None:
        ctx.check_that(type(real) is W and real.tag == node.kids[1], 'result of the command not stored', at=path, got=real, want=node)
        match(ctx, real.x, node.kids[0], path + '.x')
        return
    if node.real is not None or node.kind == 'leaf':
        if node.kind == 'leaf' and node.typ in (int, str) and real == node.real and type(real) is node.typ:
            return
        ctx.check_that(real is node.real, 'a part that was not matched is not the identical object', at=path, got=real, want=node.real)
        return
    ctx.check_that(type(real) is node.typ, 'wrong type', at=path, got=type(real), want=node.typ)
    if node.kind == 'vec':
        ctx.check_that(len(real) == len(node.kids), 'wrong length', at=path, got=real, want=node.kids)
        for i, c in enumerate(node.kids):
            match(ctx, real[i], c, '%s[%d]' % (path, i))
    elif node.typ is Cls:
        for k in FIELDS:
            ctx.check_that(hasattr(real, k) == (k in node.kids), 'field present/absent wrongly', at=path, field=k, got=real, want=node.kids)
            if k in node.kids:
                match(ctx, getattr(real, k), node.kids[k], '%s.%s' % (path, k))
    else:
        ctx.check_that(len(real) == len(node.kids), 'wrong number of keys', at=path, got=real, want=node.kids)
        for k, c in node.kids.items():
            ctx.check_that(k in real, 'key missing', at=path, key=k, got=real)
            match(ctx, real[k], c, '%s[%s]' % (path, brief(k, 20)))


def matches(real, node):
    class Quiet:
        def __init__(self):
            self.counters = Counter()

        def check_that(self, cond, msg, **kw):
            if not cond:
                raise Violation(msg)
    try:
        match(Quiet(), real, node)
        return True
    except Violation:
        return False


def same_calls(ctx, log, nodes, what):
    ctx.counters['command_calls'] += len(log)
    ctx.check_that(len(log) == len(nodes), 'command not called exactly once per matched value', called=len(log), matched=len(nodes), what=what, args=log)
    left = list(nodes)
    for x in log:
        for i, nd in enumerate(left):
            if matches(x, nd):
                del left[i]
                break
        else:
            ctx.fail('command called with a value that was not matched', value=x, matched=left, what=what)


def get_in_case(ctx, rng, root, node):
    keys, cur, exc = [], node, None
    for _ in range(rng.randrange(0, 5)):
        el = matcher(rng, cur)
        while el[1] is not None:
            el = matcher(rng, cur)
        k = el[0]
        keys.append(k)
        if cur.typ in (Cls, E, int, type(None)):
            exc = TypeError
            break
        if cur.kind == 'leaf':
            return
        try:
            nxt = child(cur, k)
        except Impossible:
            exc = TypeError
            break
        if nxt is NOTHING:
            exc = IndexError if cur.kind == 'vec' else KeyError
            break
        cur = nxt
    ctx.note('get_in', keys, exc.__name__ if exc else 'found')
    d = E()
    if exc is None:
        ctx.check_that(P.get_in(keys, root) is cur.real and P.get_in(keys, root, d) is cur.real and P.get_in(keys, root, no_default=True) is cur.real,
                       'get_in does not return the value at the path', keys=keys, want=cur.real)
    else:
        ctx.check_that(P.get_in(keys, root) is None and P.get_in(keys, root, d) is d and P.get_in(keys, root, default=d) is d, 'get_in does not return the default', keys=keys)
        r = attempt(lambda: P.get_in(keys, root, d, True))
        ctx.check_that(r[0] == 'exc' and isinstance(r[1], exc), 'get_in(no_default=True) does not raise', keys=keys, got=r, want=exc)
    ctx.counters['get_in'] += 1


def steps(ctx, rng):
    root = gen(rng, ctx, rng.choice([2, 3, 3, 4]))
    while not isinstance(root, (P.PVector, P.PMap, Cls)):
        root = gen(rng, ctx, 3)
    node = wrap(root)
    kept = [(root, node)]
    for _ in range(rng.randrange(3, 9)):
        root, node = kept[-1] if rng.random() < 0.7 else rng.choice(kept)
        if rng.random() < 0.2:
            get_in_case(ctx, rng, root, node)
            continue
        log, args, plan_ = [], [], []
        model = Model()
        cur, impossible = node, None
        desc = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            path = fresh_path(rng, cur, rng.choice([1, 1, 2, 2, 3, 4]) if rng.random() < 0.96 else 0)
            rc, mc, cname = commands(rng, log)
            raw = [p[0] for p in path]
            args += [rng.choice([list, list, tuple, P.pvector])(raw), rc]
            desc.append(([p[2] for p in path], cname))
            try:
                cur = model.apply(cur, path, mc)
            except Impossible as e:
                impossible = str(e)
                break
            if cur.kind == 'leaf':
                break
        ctx.note('transform', type(root).__name__, desc, impossible or '')
        if impossible == 'unspecified':      # a path into a set: sets have no keys
            continue
        r = attempt(lambda: root.transform(*args))
        if impossible:
            ctx.counters['failing_ops'] += 1
            ctx.check_that(r[0] == 'exc', 'no exception although ' + impossible, desc=desc, got=r[1], root=root)
        else:
            ctx.check_that(r[0] == 'ok', 'unexpected exception', desc=desc, got=r, root=root)
            new = r[1]
            same_calls(ctx, log, model.calls, desc)
            if cur is node:
                ctx.counters['unchanged'] += 1
                ctx.check_that(new is root, 'nothing changed but the identical structure is not returned', desc=desc, root=root, got=new)
            else:
                ctx.counters['changed'] += 1
                match(ctx, new, cur)
            if isinstance(new, (P.PVector, P.PMap, Cls)) and type(new) is not W:
                kept.append((new, wrap(new)))
        # the original is what it was
        probe = N(node.kind, node.typ, node.kids)
        match(ctx, root, probe, 'original')


def run(ctx):
    for i, rng in ctx.cases('transform', 4000):
        steps(ctx, rng)
    for i, rng in ctx.cases('mandatory', 40):
        # discarding and setting through typed and mandatory fields
        n = rng.randrange(1, 6)
        r = Typed(xs=list(range(n)), m={'k%d' % j: j for j in range(n)}, req=1)
        ctx.note('typed', n)
        i = rng.randrange(n)
        out = r.transform(['xs', i], P.inc, ['m', P.rex('k.*')], lambda x: x * 2, ['req'], 5)
        ctx.check_that(list(out.xs) == [x + (j == i) for j, x in enumerate(range(n))] and dict(out.m) == {'k%d' % j: j * 2 for j in range(n)} and out.req == 5, 'typed record transformed wrongly', got=out)
        ctx.check_that(type(out.xs) is type(r.xs) and type(out.m) is type(r.m), 'checked types lost', got=out)
        for bad in (lambda: r.transform(['xs', i], 'str'), lambda: r.transform(['m', 'k0'], None), lambda: r.transform(['req'], P.discard)):
            q = attempt(bad)
            ctx.counters['failing_ops'] += 1
            ctx.check_that(q[0] == 'exc', 'transform produced an invalid record', got=q)
        out = r.transform(['xs', lambda j: j % 2 == 0], P.discard, ['m', P.ny], P.discard)
        ctx.check_that(list(out.xs) == [x for x in range(n) if x % 2] and len(out.m) == 0, 'discard through typed fields wrong', got=out)


class Typed(P.PRecord):
    xs = P.pvector_field(int)
    m = P.pmap_field(str, int)
    req = P.field(type=int, mandatory=True)
