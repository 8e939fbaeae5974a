"""C21: threads sharing persistent values.

Three schedulers drive the same operations: (1) every single-preemption schedule of an operation - at its k-th bytecode or callback another
thread runs a whole operation on the same value -, (2) random schedules with many preemptions between two or three threads, (3) free-running
threads with a tiny switch interval.  The oracle is what each operation yields alone on an identically built value."""
import collections.abc, copy, gc, os, pickle, sys, threading, time
import pyrsistent as P
from pyrsistent._pvector import python_pvector
from .base import *

FILES = None


def traced(code):
    f = code.co_filename
    r = FILES.get(f)
    if r is None:
        r = FILES[f] = os.path.dirname(os.path.realpath(f)) == PKG or f.endswith('_collections_abc.py') or 'collections' in f and 'abc' in f
    return r


PKG = os.path.dirname(os.path.realpath(P.__file__))
FILES = {}


# ------------------------------------------------------------------ elements with preemption points
class Local(threading.local):
    point = None


LOCAL = Local()


def point():
    p = LOCAL.point
    if p is not None:
        p()


class T:
    """Key/element: value equality, chosen hash; comparing and hashing can be preempted."""
    __slots__ = ('ident', 'h')

    def __init__(self, ident, h):
        self.ident, self.h = ident, h

    def __hash__(self):
        point()
        return self.h

    def __eq__(self, o):
        point()
        return isinstance(o, T) and self.ident == o.ident

    def __lt__(self, o):
        point()
        return self.ident < o.ident

    def __gt__(self, o):
        point()
        return self.ident > o.ident

    def __repr__(self):
        point()
        return 'T%d' % self.ident

    def __reduce__(self):
        point()
        return T, (self.ident, self.h)


class Slow:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        for x in self.items:
            point()
            yield x


# ------------------------------------------------------------------ observation of outcomes
def obs(x, depth=6):
    if isinstance(x, T):
        return 'T', x.ident
    if x is None or isinstance(x, (int, str, float, bool)):
        return x
    t = type(x).__name__
    if depth == 0:
        return t
    if isinstance(x, P.PClass):
        return t, tuple((n, obs(getattr(x, n), depth - 1)) for n in sorted(x._pclass_fields) if hasattr(x, n)) if hasattr(x, '_pclass_fields') else obs(x.serialize())
    if isinstance(x, (P.PMap, dict)) or t in ('PMapItems',):
        d = dict(x)
        return t, len(x), frozenset((obs(k, depth - 1), obs(v, depth - 1)) for k, v in d.items())
    if isinstance(x, P.PBag):
        c = Counter(obs(y, depth - 1) for y in x)
        return t, len(x), frozenset(c.items())
    if isinstance(x, (P.PSet, set, frozenset, collections.abc.Set)):
        return t, len(x), frozenset(obs(y, depth - 1) for y in x)
    if isinstance(x, P.PDeque):
        return t, x.maxlen, len(x), tuple(obs(y, depth - 1) for y in x)
    if isinstance(x, (list, tuple, P.PVector, P.PList, collections.abc.Sequence)) or hasattr(x, '__iter__'):
        return t, tuple(obs(y, depth - 1) for y in x)
    return t


def outcome(f, *a):
    try:
        r = f(*a)
    except Exception as e:
        return 'exc', type(e).__name__
    finally:
        p, LOCAL.point = LOCAL.point, None
        tr = sys.gettrace()
        sys.settrace(None)
    # observing the result is not part of the operation
    try:
        return 'ok', obs(r)
    except Exception as e:
        return 'broken', type(e).__name__, str(e)[:200]
    finally:
        LOCAL.point = p
        sys.settrace(tr)


def take(it, n):
    return [x for _, x in zip(range(n), it)]


# ------------------------------------------------------------------ shared values and operations
class Rec(P.PRecord):
    a = P.field(initial=0)
    b = P.field(type=(int, T), invariant=lambda x: (x != -1, 'b'))
    c = P.pvector_field((int, T))
    d = P.field(serializer=lambda f, x: (f, x))
    __invariant__ = lambda r: (True, '')


class Cls(P.PClass):
    a = P.field(initial=lambda: 0)
    b = P.field(type=(int, T), invariant=lambda x: (x != -1, 'b'))
    c = P.pmap_field((str, T), (int, T))
    d = P.field()


class CV(P.CheckedPVector):
    __type__ = (int, T)
    __invariant__ = lambda x: (x != -1, 'neg')


class CM(P.CheckedPMap):
    __key_type__ = (int, T, str)
    __value_type__ = (int, T, str)


class CS(P.CheckedPSet):
    __type__ = (int, T)


def ev_script(rng, n, x):
    S = []
    for _ in range(rng.randrange(1, 5)):
        i = rng.randrange(n) if n else 0
        S.append(rng.choice([('set', i), ('append', None), ('extend', None), ('del', i), ('persist', None), ('get', i)]))

    def f(v):
        e, out = v.evolver(), []
        for k, i in S:
            if k == 'set' and i < len(e):
                e[i] = x
            elif k == 'append':
                e.append(x)
            elif k == 'extend':
                e.extend(Slow([x, 1, 2]))
            elif k == 'del' and i < len(e):
                del e[i]
            elif k == 'persist':
                out.append(e.persistent())
            elif k == 'get' and i < len(e):
                out.append(e[i])
            out.append(len(e))
        out.append(e.persistent())
        return out
    return f


def map_script(rng, ks, x):
    S = [(rng.choice(['set', 'set', 'remove', 'persist', 'get', 'in']), rng.choice(ks)) for _ in range(rng.randrange(1, 6))]

    def f(m):
        e, out = m.evolver(), []
        for k, key in S:
            if k == 'set':
                e[key] = x
            elif k == 'remove' and key in e:
                e.remove(key)
            elif k == 'persist':
                out.append(e.persistent())
            elif k == 'get' and key in e:
                out.append(e[key])
            elif k == 'in':
                out.append(key in e)
            out.append(len(e))
        out.append(e.persistent())
        return out
    return f


def set_script(rng, ks):
    S = [(rng.choice(['add', 'add', 'remove', 'persist', 'in']), rng.choice(ks)) for _ in range(rng.randrange(1, 6))]

    def f(m):
        e, out = m.evolver(), []
        for k, key in S:
            if k == 'add':
                e.add(key)
            elif k == 'remove' and key in e:
                e.remove(key)
            elif k == 'persist':
                out.append(e.persistent())
            elif k == 'in':
                out.append(key in e)
            out.append(len(e))
        out.append(e.persistent())
        return out
    return f


def vec_ops(rng, l, other):
    n = len(l)
    x, i, j = T(990, 3), rng.randrange(n) if n else 0, rng.randrange(n) if n else 0
    y = l[i] if n else x
    return [
        ('get', lambda v: (v[i], v[-1], v[j])), ('iter', lambda v: list(v)), ('hash', lambda v: hash(v)), ('hash2', lambda v: (hash(v), hash(v))), ('eq', lambda v: (v == other, v != other)), ('lt', lambda v: (v < other, v >= other)),
        ('set', lambda v: v.set(i, x)), ('mset', lambda v: v.mset(i, x, j, 5)), ('append', lambda v: v.append(x).append(1)), ('extend', lambda v: v.extend(Slow([x] * 35))), ('delete', lambda v: v.delete(i)), ('remove', lambda v: v.remove(y)),
        ('slice', lambda v: (v[i:], v[::2])), ('index', lambda v: v.index(y)), ('count', lambda v: v.count(y)), ('in', lambda v: (y in v, x in v)), ('tolist', lambda v: list(v.tolist()) if hasattr(v, 'tolist') else list(v)), ('evolver', ev_script(rng, n, x)), ('evolver2', ev_script(rng, n, x)),
        ('transform', lambda v: v.transform([lambda k: k % 3 == 0], lambda z: (point(), 4)[1])), ('pickle', lambda v: pickle.loads(pickle.dumps(v))), ('repr', lambda v: repr(v)), ('add', lambda v: v + other), ('mul', lambda v: v * 2), ('half iter', lambda v: take(v, n // 2)),
        ('two iters', lambda v: [p for p in zip(v, v)]), ('copy', lambda v: copy.copy(v)), ('bad index', lambda v: v[n + 7]), ('bad set', lambda v: v.set(n + 7, 1)), ('reversed', lambda v: list(reversed(v))), ('len', lambda v: len(v)), ('all gets', lambda v: [v[q] for q in range(n)])]


def map_ops(rng, d, uni, other):
    ks = list(uni)
    x, k, k2 = T(991, 5), rng.choice(ks), rng.choice(ks)
    new = {rng.choice(ks): x for _ in range(8)}
    return [
        ('get', lambda m: (m.get(k, 'no'), m.get(k2, 'no'))), ('getitem', lambda m: m[k]), ('in', lambda m: (k in m, k2 in m)), ('iter', lambda m: sorted(map(obs, m), key=repr)), ('items', lambda m: dict(m.items())), ('values', lambda m: sorted(map(repr, m.values()))), ('hash', lambda m: hash(m)), ('hash2', lambda m: (hash(m), hash(m))),
        ('eq', lambda m: (m == other, m != other)), ('eq dict', lambda m: m == d), ('set', lambda m: m.set(k, x)), ('set2', lambda m: m.set(k, x).set(k2, x)), ('remove', lambda m: m.remove(k)), ('discard', lambda m: m.discard(k2)), ('update', lambda m: m.update(new)), ('update_with', lambda m: m.update_with(lambda a, b: (point(), b)[1], new)),
        ('evolver', map_script(rng, ks, x)), ('evolver2', map_script(rng, ks, x)), ('transform', lambda m: m.transform([lambda q: (point(), True)[1]], 3)), ('pickle', lambda m: pickle.loads(pickle.dumps(m))), ('repr', lambda m: sorted(repr(m))), ('copy', lambda m: copy.copy(m)), ('iteritems', lambda m: dict(m.iteritems())),
        ('keys', lambda m: m.keys()), ('add', lambda m: m + new), ('len', lambda m: len(m)), ('all gets', lambda m: [m.get(q) for q in ks]), ('key of dict', lambda m: {m: 1}[m])]


def set_ops(rng, d, uni, other):
    ks = list(uni)
    k, k2 = rng.choice(ks), rng.choice(ks)
    some = [rng.choice(ks) for _ in range(6)]
    return [('in', lambda s: (k in s, k2 in s)), ('iter', lambda s: set(map(obs, s))), ('hash', lambda s: hash(s)), ('eq', lambda s: (s == other, s != other)), ('add', lambda s: s.add(k)), ('add2', lambda s: s.add(k).add(k2)), ('remove', lambda s: s.remove(k)), ('discard', lambda s: s.discard(k2)), ('update', lambda s: s.update(Slow(some))),
            ('or', lambda s: s | other), ('and', lambda s: s & other), ('sub', lambda s: s - other), ('xor', lambda s: s ^ other), ('le', lambda s: (s <= other, s >= other, s < other)), ('evolver', set_script(rng, ks)), ('pickle', lambda s: pickle.loads(pickle.dumps(s))), ('repr', lambda s: sorted(repr(s))), ('isdisjoint', lambda s: s.isdisjoint(other)), ('len', len)]


def bag_ops(rng, d, uni, other):
    ks = list(uni)
    k, k2 = rng.choice(ks), rng.choice(ks)
    some = [rng.choice(ks) for _ in range(6)]
    return [('count', lambda b: (b.count(k), b.count(k2))), ('in', lambda b: k in b), ('iter', lambda b: sorted(map(repr, b))), ('hash', hash), ('eq', lambda b: b == other), ('add', lambda b: b.add(k)), ('remove', lambda b: b.remove(k)), ('update', lambda b: b.update(Slow(some))), ('plus', lambda b: b + other), ('minus', lambda b: b - other),
            ('or', lambda b: b | other), ('and', lambda b: b & other), ('len', len), ('pickle', lambda b: pickle.loads(pickle.dumps(b)))]


def plist_ops(rng, l, other):
    n = len(l)
    i = rng.randrange(n) if n else 0
    x, y = T(992, 1), l[i] if n else 1
    return [('iter', list), ('get', lambda p: p[i]), ('cons', lambda p: p.cons(x)), ('mcons', lambda p: p.mcons(Slow([x, 1]))), ('rest', lambda p: p.rest.rest), ('first', lambda p: p.first), ('reverse', lambda p: p.reverse()), ('split', lambda p: p.split(i)), ('remove', lambda p: p.remove(y)), ('hash', hash), ('eq', lambda p: (p == other, p != other)),
            ('lt', lambda p: p < other), ('slice', lambda p: p[i:]), ('len', len), ('in', lambda p: y in p), ('index', lambda p: p.index(y)), ('repr', repr), ('pickle', lambda p: pickle.loads(pickle.dumps(p))), ('bad', lambda p: p[n + 3])]


def deque_ops(rng, l, other):
    n = len(l)
    i = rng.randrange(n) if n else 0
    x, y = T(993, 1), l[i] if n else 1
    r = rng.choice([1, -1, 3, -4])
    return [('iter', list), ('get', lambda p: p[i]), ('append', lambda p: p.append(x)), ('appendleft', lambda p: p.appendleft(x)), ('pop', lambda p: p.pop()), ('popleft', lambda p: p.popleft()), ('pop n', lambda p: p.pop(3)), ('popleft n', lambda p: p.popleft(3)), ('extend', lambda p: p.extend(Slow([x, 1]))), ('extendleft', lambda p: p.extendleft(Slow([x, 1]))),
            ('reverse', lambda p: p.reverse()), ('rotate', lambda p: p.rotate(r)), ('remove', lambda p: p.remove(y)), ('hash', hash), ('eq', lambda p: (p == other, p != other)), ('lt', lambda p: p < other), ('slice', lambda p: p[i:]), ('len', len), ('in', lambda p: y in p), ('count', lambda p: p.count(y)), ('left', lambda p: (p.left, p.right)), ('repr', repr),
            ('pickle', lambda p: pickle.loads(pickle.dumps(p))), ('reversed', lambda p: list(reversed(p))), ('pops', lambda p: p.pop().pop().popleft().right)]


def rec_ops(rng, cls, kw, other):
    x = T(994, 2)
    f = rng.choice('abd')
    L = [('construct', lambda r: cls(**kw)), ('construct2', lambda r: cls(b=5)), ('set', lambda r: r.set(**{f: x})), ('bad set', lambda r: r.set(b='x')), ('inv', lambda r: r.set(b=-1)), ('get', lambda r: (r.a, r.b)), ('remove', lambda r: r.remove('b')), ('serialize', lambda r: r.serialize('fmt')), ('create', lambda r: cls.create({'b': 4, 'd': 1})),
         ('create extra', lambda r: cls.create({'b': 4, 'zz': 1}, ignore_extra=True)), ('eq', lambda r: (r == other, r != other)), ('repr', lambda r: sorted(repr(r))), ('pickle', lambda r: pickle.loads(pickle.dumps(r))), ('transform', lambda r: r.transform(['b'], lambda z: (point(), 3)[1])), ('evolver', lambda r: rec_ev(r, f, x)), ('evolver2', lambda r: rec_ev(r, 'd', 7)),
         ('unknown', lambda r: r.set(q=1)), ('bad ctor', lambda r: cls(b='x'))]
    if cls is Rec:
        L += [('hash', hash), ('update', lambda r: r.update({f: x})), ('set c', lambda r: r.set('c', Slow([1, x]))), ('items', lambda r: dict(r.items())), ('len', len)]
    else:
        L += [('set c', lambda r: r.set('c', {'k': x}))]
    return L


def rec_ev(r, f, x):
    e = r.evolver()
    e.set(f, x)
    a = e.persistent()
    e.set('b', 9)
    return [a, e.persistent()]


def an_elem(rng, i):
    return T(i, rng.choice([0, 1, 8, 16, i])) if rng.random() < 0.7 else i


def scenario(rng, fam=None):
    """-> name, make() -> fresh shared value (same contents every time), operations"""
    fam = fam or rng.choice(['vec', 'pyvec', 'map', 'map', 'set', 'bag', 'plist', 'deque', 'rec', 'cls', 'cvec', 'cmap', 'cset', 'module'])
    n = rng.choice([0, 1, 2, 5, 12, 31, 33, 40, 65] if rng.random() < 0.85 else [1056, 1057])
    if fam in ('vec', 'pyvec', 'cvec'):
        n = n if fam != 'cvec' else min(n, 65)
        l = [an_elem(rng, i) for i in range(n)]
        l2 = l[:-1] + [5] if l else [1]
        make = {'vec': P.pvector, 'pyvec': python_pvector, 'cvec': CV}[fam]
        build = rng.choice([make, lambda q: make(q[:n // 2]).extend(q[n // 2:])])
        return fam, lambda: build(l), vec_ops(rng, l, rng.choice([P.pvector(l), P.pvector(l2), l2, python_pvector(list(l))]))
    n = min(n, 40)
    if fam in ('map', 'cmap'):
        uni = [an_elem(rng, i) for i in range(n + 3)]
        d = {k: rng.choice([T(500 + i, i), i, 'v%d' % i]) for i, k in enumerate(uni[:n])}
        make = P.pmap if fam == 'map' else CM
        return fam, lambda: make(d), map_ops(rng, d, uni, make(d) if rng.random() < 0.6 else make({**d, 7777: 1}))
    if fam in ('set', 'cset', 'bag'):
        uni = [an_elem(rng, i) for i in range(n + 3)]
        make = {'set': P.pset, 'cset': CS, 'bag': P.pbag}[fam]
        l = uni[:n] + (uni[:n // 2] if fam == 'bag' else [])
        o = make(rng.sample(uni, len(uni) // 2))
        return fam, lambda: make(l), (bag_ops if fam == 'bag' else set_ops)(rng, l, uni, rng.choice([o, make(list(l))]))
    if fam in ('plist', 'deque'):
        l = [an_elem(rng, i) for i in range(n)]
        if fam == 'plist':
            return fam, lambda: P.plist(l), plist_ops(rng, l, P.plist(l[:-1] + [1]))
        ml = rng.choice([None, n, n + 2])
        cut = rng.randrange(n + 1)
        build = rng.choice([lambda: P.pdeque(l, ml), lambda: P.pdeque(l[cut:], ml).extendleft(l[:cut][::-1]), lambda: P.pdeque(maxlen=ml).extend(l)])
        return fam, build, deque_ops(rng, l, P.pdeque(l[:-1] + [1]))
    if fam in ('rec', 'cls'):
        cls = Rec if fam == 'rec' else Cls
        kw = {'b': rng.choice([T(1, 1), 3]), 'd': T(2, 2)}
        if cls is Rec:
            kw['c'] = [T(3, 3), 1]
        else:
            kw['c'] = {'q': T(3, 3)}
        return fam, lambda: cls(**kw), rec_ops(rng, cls, kw, cls(b=3))
    # module level functions on plain data and a nested shared value
    data = {'a': [1, 2, {'b': [T(1, 1), T(2, 2)]}], 'c': {'d': {1, 2}}, 'e': (1, [2])}
    l = [an_elem(rng, i) for i in range(n)]
    ops = [('freeze', lambda v: P.freeze(data)), ('thaw', lambda v: P.thaw(v)), ('get_in', lambda v: P.get_in(['a', 2, 'b', 0], v)), ('transform', lambda v: v.transform(['a', 2, 'b', P.ny], lambda z: (point(), 1)[1])), ('transform2', lambda v: v.transform(['c', 'x'], 5, ['a', 0], P.inc)), ('discard', lambda v: v.transform(['c', 'd'], P.discard)),
           ('pvector', lambda v: P.pvector(Slow(l))), ('pmap', lambda v: P.pmap({k: 1 for k in l})), ('pset', lambda v: P.pset(Slow(l))), ('plist', lambda v: P.plist(Slow(l))), ('pdeque', lambda v: P.pdeque(Slow(l))), ('pbag', lambda v: P.pbag(Slow(l))), ('mutant', lambda v: MUT(data)), ('hash', lambda v: hash(P.pmap({1: P.pvector(l)}))), ('empty', lambda v: (P.pvector(), P.pmap(), P.pset(), P.plist(), P.pdeque())),
           ('immutable', lambda v: IM(1, 2).set(a=3)), ('rex', lambda v: v.transform([P.rex('a|c')], 1)), ('pickle', lambda v: pickle.loads(pickle.dumps(v)))]
    return fam, lambda: P.freeze(data), ops


MUT = P.mutant(lambda d: {'z': 1, **d} if isinstance(d, dict) else d)
IM = P.immutable('a, b', name='IM')


# ------------------------------------------------------------------ lazily resolved declarations
COUNT = [0]


def lazy(rng):
    """Fresh classes whose string types are resolved at first use - by two threads at once."""
    COUNT[0] += 1
    g = globals()
    k = rng.randrange(4)

    def make():
        COUNT[0] += 1
        ns = {'__type__': 'vmon.c21.T', '__module__': __name__}
        if k == 0:
            return type('LV', (P.CheckedPVector,), ns)
        if k == 1:
            return type('LS', (P.CheckedPSet,), ns)
        if k == 2:
            return type('LM', (P.CheckedPMap,), {'__key_type__': 'vmon.c21.T', '__value_type__': ('vmon.c21.T', int), '__module__': __name__})
        return type('LR', (P.PRecord,), {'a': P.field(type='vmon.c21.T'), 'b': P.pvector_field('vmon.c21.T'), '__module__': __name__})
    x, y = T(1, 1), T(2, 1)
    if k in (0, 1):
        ops = [('ok', lambda c: c([x, y])), ('bad', lambda c: c([x, 'q'])), ('ok2', lambda c: c([y]))]
    elif k == 2:
        ops = [('ok', lambda c: c({x: y})), ('bad', lambda c: c({x: 'q'})), ('bad key', lambda c: c({1: y}))]
    else:
        ops = [('ok', lambda c: c(a=x)), ('ok2', lambda c: c(a=x, b=[y])), ('bad', lambda c: c(a='q'))]
    return 'lazy%d' % k, make, ops


# ------------------------------------------------------------------ scheduler 1: one preemption
class Helper:
    """A second real thread that runs one operation at a time on demand."""
    def __init__(self):
        self.go, self.done = threading.Semaphore(0), threading.Semaphore(0)
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            self.go.acquire()
            try:
                self.result = outcome(*self.job)
            except BaseException as e:
                self.result = ('broken', type(e).__name__, str(e))
            self.done.release()

    def start(self, f, *a):
        self.job, self.result = (f,) + a, None
        self.go.release()

    def wait(self, timeout):
        return self.done.acquire(timeout=timeout)


class Tracer:
    """Counts bytecodes of the code under test and callbacks in this thread; calls action at the k-th."""
    def __init__(self, k, action):
        self.n, self.k, self.action, self.busy = 0, k, action, False

    def point(self):
        if self.busy:
            return
        self.n += 1
        if self.n == self.k:
            self.busy = True
            self.action()
            self.busy = False

    def glob(self, frame, event, arg):
        if not traced(frame.f_code):
            return None
        frame.f_trace_opcodes = True
        return self.loc

    def loc(self, frame, event, arg):
        if event == 'opcode':
            self.point()
        return self.loc

    def run(self, f, *a):
        LOCAL.point = self.point
        sys.settrace(self.glob)
        try:
            return outcome(f, *a)
        finally:
            sys.settrace(None)
            LOCAL.point = None


H = None


def single(ctx, rng, cap):
    global H
    H = H or Helper()
    name, make, ops = scenario(rng) if rng.random() < 0.95 else lazy(rng)
    other, ops2 = None, ops
    if rng.random() < 0.25 and not name.startswith('lazy'):
        _, other, ops2 = scenario(rng, name)            # the second thread works on a value of its own
    for _ in range(2):
        (an, fa), (bn, fb) = rng.choice(ops), rng.choice(ops2)
        wa, wb = outcome(fa, make()), outcome(fb, (other or make)())
        wafter = outcome(lambda v: v, make())
        whash = outcome(hash, make())
        tr = Tracer(-1, None)
        r = tr.run(fa, make())
        N = tr.n
        if r != wa:
            ctx.counters['functional_mismatches'] += 1        # not even repeatable alone
            return
        ctx.note('single.%s' % name, an, bn, N, rng.random())
        ctx.seen('pairs', '%s:%s/%s' % (name, an, bn))
        ks = range(1, N + 1) if N <= cap else sorted(rng.sample(range(1, N + 1), cap))
        for k in ks:
            v = make()
            v2 = other() if other else v
            state = {'ran': False, 'late': False}

            def action():
                state['ran'] = True
                H.start(fb, v2)
                if not H.wait(0.3):
                    state['late'] = True             # it waits for something the first thread holds: let that go on
            tr = Tracer(k, action)
            ra = tr.run(fa, v)
            if not state['ran']:
                H.start(fb, v2)
                state['late'] = True
            if state['late']:
                ctx.counters['late'] += 1
                if not H.wait(60):
                    ctx.fail('two threads block each other', family=name, first=an, second=bn, at=k)
            rb = H.result
            ctx.counters['schedules'] += 1
            if ra != wa:
                ctx.fail('%s: %s yields something else when another thread runs %s in between' % (name, an, bn), at=k, of=N, got=ra, alone=wa)
            if rb != wb:
                ctx.fail('%s: %s yields something else while another thread is inside %s' % (name, bn, an), at=k, of=N, got=rb, alone=wb)
            after = outcome(lambda q: q, v)
            if after != wafter and not isinstance(v, type):
                ctx.fail('%s: the shared value changed (%s / %s)' % (name, an, bn), at=k, of=N, got=after, want=wafter)
            if not isinstance(v, type) and outcome(hash, v) != whash:
                ctx.fail('%s: the hash of the shared value is wrong afterwards (%s / %s)' % (name, an, bn), at=k, of=N)
            if outcome(fa, v) != wa or outcome(fb, v2) != wb:
                ctx.fail('%s: operations on the shared value go wrong afterwards (%s / %s)' % (name, an, bn), at=k, of=N)


# ------------------------------------------------------------------ scheduler 2: random schedules
class Baton:
    def __init__(self, n, rngs, p):
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.rngs, self.p, self.switches, self.log = rngs, p, 0, []
        self.lock = threading.Lock()

    def point(self, me):
        r = self.rngs[me]
        if r.random() >= self.p:
            return
        with self.lock:
            others = [o for o in self.alive if o != me]
            if not others:
                return
            o = r.choice(others)
            self.switches += 1
            self.log.append(o)
        self.sems[o].release()
        self.sems[me].acquire(timeout=0.3)

    def finish(self, me):
        with self.lock:
            self.alive.discard(me)
            for o in self.alive:
                self.sems[o].release()


def many(ctx, rng):
    name, make, ops = scenario(rng)
    nt = rng.choice([2, 2, 3])
    v = make()
    jobs = [[rng.choice(ops) for _ in range(rng.randrange(1, 4))] for _ in range(nt)]
    want = [[outcome(f, make()) for _, f in js] for js in jobs]
    wafter, whash = outcome(lambda q: q, make()), outcome(hash, make())
    B = Baton(nt, [random.Random(rng.random()) for _ in range(nt)], rng.choice([0.01, 0.03, 0.1, 0.3]))
    got = [None] * nt

    def body(me):
        B.sems[me].acquire(timeout=5)
        tr = Tracer(-1, None)

        def pt():
            if not tr.busy:
                tr.busy = True
                try:
                    B.point(me)
                finally:
                    tr.busy = False
        tr.point = pt
        res = []
        try:
            for _, f in jobs[me]:
                LOCAL.point = pt
                sys.settrace(tr.glob)
                try:
                    res.append(outcome(f, v))
                finally:
                    sys.settrace(None)
                    LOCAL.point = None
        finally:
            got[me] = res
            B.finish(me)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(nt)]
    for t in ts:
        t.start()
    B.sems[0].release()
    for t in ts:
        t.join(90)
        if t.is_alive():
            ctx.fail('%s: threads block each other' % name, jobs=[[a for a, _ in j] for j in jobs])
    ctx.counters['schedules'] += 1
    ctx.counters['switches'] += B.switches
    ctx.seen('interleavings', hash(tuple(B.log)) & 0xffffff)
    ctx.note('many.%s' % name, [[a for a, _ in j] for j in jobs], B.switches, rng.random())
    for i in range(nt):
        for (op, _), g, w in zip(jobs[i], got[i], want[i]):
            if g != w:
                ctx.fail('%s: %s yields something else with other threads running' % (name, op), jobs=[[a for a, _ in j] for j in jobs], got=g, alone=w)
    after = outcome(lambda q: q, v)
    if after != wafter or outcome(hash, v) != whash:
        ctx.fail('%s: the shared value changed' % name, jobs=[[a for a, _ in j] for j in jobs], got=after, want=wafter)


# ------------------------------------------------------------------ scheduler 3: free running
def free(ctx, rng):
    name, make, ops = scenario(rng)
    v = make()
    nt = 4
    ops = rng.sample(ops, min(len(ops), 6))
    want = [outcome(f, make()) for _, f in ops]
    wafter, whash = outcome(lambda q: q, make()), outcome(hash, make())
    bad, count = [], [0] * nt
    stop = time.monotonic() + 0.12
    start = threading.Barrier(nt)

    def body(me):
        r = random.Random(me)
        start.wait()
        while time.monotonic() < stop and not bad:
            i = r.randrange(len(ops))
            g = outcome(ops[i][1], v)
            count[me] += 1
            if g != want[i]:
                bad.append((ops[i][0], g, want[i]))
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(nt)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(90)
            if t.is_alive():
                ctx.fail('%s: threads block each other' % name)
    finally:
        sys.setswitchinterval(old)
    ctx.counters['free_ops'] += sum(count)
    ctx.note('free.%s' % name, [a for a, _ in ops], rng.random())
    if bad:
        ctx.fail('%s: %s yields something else with other threads running' % (name, bad[0][0]), got=bad[0][1], alone=bad[0][2], operations=[a for a, _ in ops])
    after = outcome(lambda q: q, v)
    if after != wafter or outcome(hash, v) != whash:
        ctx.fail('%s: the shared value changed' % name, got=after, want=wafter, operations=[a for a, _ in ops])


def run(ctx):
    gc.disable()
    cap = 60 if not ctx.thorough else 400
    for i, rng in ctx.cases('single', 150):
        single(ctx, rng, cap)
        if i % 40 == 0:
            gc.collect()
    for i, rng in ctx.cases('many', 120):
        many(ctx, rng)
    gc.enable()
    for i, rng in ctx.cases('free', 20):
        free(ctx, rng)
