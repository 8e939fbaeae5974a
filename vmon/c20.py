"""C20: garbage collection versus a shadow graph that says what is reachable.

Every node logs its own finalisation and carries a canary and its expected contents; after each collection nothing reachable in the shadow
graph may have been finalised, cleared or changed, no vector may report more references than exist, and dead cycles that share no internal
structure must be gone."""
import gc, sys, weakref
import pyrsistent as P
from .base import *
from . import fam
from .cmodel import routes

DEAD = set()


class Box:
    """Mutable node; its attributes are cleared when the collector takes it for garbage."""
    count = 0

    def __init__(self):
        Box.count += 1
        self.n = Box.count
        self.out = []
        self.canary = (self.n, 0x5A17)

    def __del__(self):
        DEAD.add(NUM.pop(id(self), -1))

    def __repr__(self):
        return 'Box'


NUM = {}


class Rec(P.PRecord):
    a = P.field()
    b = P.field()


class Cls(P.PClass):
    a = P.field()
    b = P.field()


class CV(P.CheckedPVector):
    __type__ = object


class CM(P.CheckedPMap):
    __key_type__ = object
    __value_type__ = object


# ------------------------------------------------------------------ live data: random graphs
class G:
    """Shadow graph.  Nodes: boxes and persistent objects, by number; kids[n] = numbers of what it refers to."""
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.roots = {}         # number -> object
        self.kids = {}
        self.kind = {}
        self.n = 0

    def new(self, obj, kind, kids):
        self.n += 1
        n = self.n
        self.kids[n] = list(kids)
        self.kind[n] = kind
        self.roots[n] = obj
        if kind == 'box':
            obj.g = n
            NUM[id(obj)] = n
        return n

    def reach(self, sel):
        seen, todo = set(), list(sel)
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                todo.extend(k for k in self.kids[n] if k)
        return seen


def pick(g, kind):
    c = [n for n in g.roots if g.kind[n] in kind]
    return g.rng.choice(c) if c else None


def items(g, n):
    """n element (object, number) pairs; mostly boxes that are roots, some vectors, some plain"""
    pool = list(g.roots)
    few = [g.rng.choice(pool) for _ in range(3)] if pool else []
    out = []
    for _ in range(n):
        r = g.rng.random()
        if r < 0.5 and few:
            k = g.rng.choice(few)
            out.append((g.roots[k], k))
        else:
            out.append((g.rng.randrange(1000, 1010), 0))
    return out


def shadow_vec(g, v, kids, kind='vec'):
    return g.new(v, kind, kids)


SIZES = [0, 1, 2, 5, 31, 32, 33, 40, 64, 65, 70, 96, 97, 1024, 1056, 1057, 1090]


def step(g, small=True):
    ctx, rng = g.ctx, g.rng
    k = rng.randrange(24)
    if k < 3 or len(g.roots) < 3:
        b = Box()
        g.new(b, 'box', [])
        return 'box'
    if k < 5:
        n = rng.choice(SIZES if rng.random() < 0.5 else SIZES[:10])
        it = items(g, n)
        make = rng.choice([P.pvector, lambda l: P.pvector(slow(l)), lambda l: P.pvector().extend(l)])
        shadow_vec(g, make([o for o, _ in it]), [i for _, i in it])
        return 'vector'
    if k < 8:                                          # link box -> anything
        b = pick(g, ('box',))
        t = rng.choice(list(g.roots))
        if b is None:
            return 'none'
        g.roots[b].out.append(g.roots[t])
        g.kids[b].append(t)
        return 'link'
    if k < 14:                                         # derive: shares structure
        v = pick(g, ('vec', 'vec', 'pvec'))
        if v is None:
            return 'none'
        V, K = g.roots[v], list(g.kids[v])
        (x, xi), n = items(g, 1)[0], len(K)
        d = rng.randrange(8)
        if d == 0 or n == 0:
            R, K = V.append(x), K + [xi]
        elif d == 1:
            i = index(rng, n) % n
            R = V.set(i, x)
            K[i] = xi
        elif d == 2:
            more = items(g, rng.choice([1, 2, 31, 33, 40]))
            R, K = V.extend(slow([o for o, _ in more])), K + [i for _, i in more]
        elif d == 3:
            i = rng.randrange(n)
            R = V.delete(i)
            del K[i]
        elif d == 4:
            s = a_slice(rng, n)
            R, K = V[s], K[s]
        elif d == 5:
            i, j = rng.randrange(n), rng.randrange(n)
            R = V.mset(i, x, j, x)
            K[i] = K[j] = xi
        elif d == 6 and n < 200:
            R, K = V * 2, K * 2
        else:
            e = V.evolver()
            for _ in range(3):
                i = rng.randrange(n)
                e[i] = x
                K[i] = xi
                if rng.random() < 0.3:
                    e.persistent()
            e.append(x)
            K.append(xi)
            R = e.persistent()
        shadow_vec(g, R, K, g.kind[v])
        return 'derive'
    if k < 16:                                         # evolver
        v = pick(g, ('vec', 'pvec'))
        if v is None:
            return 'none'
        g.new(g.roots[v].evolver(), 'ev', list(g.kids[v]))
        return 'evolver'
    if k < 18:                                         # update a kept evolver
        e = pick(g, ('ev',))
        if e is None:
            return 'none'
        E_, K = g.roots[e], g.kids[e]
        K = K[:]
        for _ in range(rng.randrange(1, 4)):
            (x, xi) = items(g, 1)[0]
            r = rng.random()
            if K and r < 0.5:
                i = index(rng, len(K)) % len(K)
                E_[i] = x
                K[i] = xi
            elif r < 0.85:
                E_.append(x)
                K.append(xi)
            elif K and len(K) < 200:
                i = rng.randrange(len(K))
                del E_[i]
                del K[i]
        if rng.random() < 0.4:
            p = E_.persistent()
            g.new(p, 'vec', K)
        g.kids[e] = K
        # the evolver may also keep what it was made from alive; only "reachable stays intact" is judged for it
        return 'update'
    if k < 19:
        v = pick(g, ('vec', 'pvec'))
        if v is None:
            return 'none'
        it, K = iter(g.roots[v]), g.kids[v]
        for _ in range(min(rng.choice([0, 1, 5, 33]), len(K) - 1)):       # an exhausted iterator may let go of its vector
            next(it, None)
        n = g.new(it, 'it', [v])
        return 'iterator'
    if k < 21:                                         # other persistent containers
        it = items(g, rng.choice([1, 3, 9, 40]))
        objs, K = [o for o, _ in it], [i for _, i in it]
        t = rng.randrange(7)
        R = [lambda: P.pmap({i: o for i, o in enumerate(objs)}), lambda: P.plist(objs), lambda: P.pdeque(objs), lambda: Rec(a=objs[0], b=P.pvector(objs)), lambda: Cls(a=objs[0], b=P.pvector(objs)), lambda: CV(objs), lambda: P.freeze([[o] for o in objs], strict=False)][t]()
        g.new(R, ['map', 'seq', 'seq', 'rec', 'rec', 'seq', 'nest'][t], K)
        return 'other'
    if k < 23:
        g.roots.pop(rng.choice(list(g.roots)))         # drop a root (maybe the end of a cycle)
        return 'drop'
    for n in rng.sample(list(g.roots), len(g.roots) // 2):
        del g.roots[n]
    return 'drop many'


def slow(l):
    for i, x in enumerate(l):
        if i in (1, 33):
            gc.collect()
        yield x


def verify(ctx, g):
    """Everything reachable in the shadow graph is intact."""
    live = g.reach(g.roots)
    ctx.counters['live_nodes'] += len(live)
    killed = live & DEAD
    if killed:
        ctx.fail('the collector finalised an object that is still reachable', kinds=sorted({g.kind[n] for n in killed}), count=len(killed))
    seen = set()
    todo = [(n, o) for n, o in g.roots.items()]
    while todo:
        n, o = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        kind, K = g.kind[n], g.kids[n]
        ctx.counters['verified'] += 1
        if kind == 'box':
            ctx.check_that('canary' in o.__dict__ and o.canary[1] == 0x5A17 and o.g == n, 'a reachable object was cleared by the collector', left=sorted(o.__dict__))
            ctx.check_that(len(o.out) == len(K), 'a reachable list was cleared by the collector', got=len(o.out), want=len(K))
            todo.extend(zip(K, o.out))
            continue
        if kind == 'it':
            continue                        # reading it would advance it
        if kind == 'ev':
            got = [o[i] for i in range(len(o))]
        elif kind == 'map':
            got = [o[i] for i in range(len(o))]
        elif kind == 'rec':
            got = list(o.b)
            ctx.check_that(not got or o.a is got[0], 'record field changed')
        elif kind == 'nest':
            got = [x[0] for x in o]
        else:
            got = list(o)
        ctx.check_that(len(got) == len(K), 'contents of a reachable %s changed' % kind, got=len(got), want=len(K))
        for x, i in zip(got, K):
            if i:
                if g.kind[i] == 'box':
                    ctx.check_that(type(x) is Box and x.__dict__.get('g') == i, 'a reachable vector holds a cleared or foreign object', got=type(x))
                todo.append((i, x))
            else:
                ctx.check_that(type(x) is int, 'contents of a reachable %s changed' % kind, got=type(x))


def reports(ctx, g):
    """No object is reported to the collector more often than it is referenced."""
    total = Counter()
    keep = {}
    for o in gc.get_objects():
        if type(o).__module__.startswith(('pvectorc', 'pyrsistent')) and type(o) is not type:
            for r in gc.get_referents(o):
                if type(r) in (Box, type(P.pvector()), list):
                    total[id(r)] += 1
                    keep[id(r)] = r
    r = o = None
    for i in list(keep):
        obj = keep.pop(i)
        ctx.counters['reported_objects'] += 1
        have = sys.getrefcount(obj) - 2
        if total[i] > have:
            ctx.fail('an object is reported to the collector more often than it is referenced', type=type(obj), reported=total[i], referenced=have)


def graph(ctx, rng, steps):
    DEAD.clear()
    NUM.clear()
    g = G(ctx, rng)
    trace = []
    for i in range(steps):
        s = step(g)
        trace.append(s)
        if rng.random() < 0.3:
            gc.collect(rng.choice([0, 1, 2, 2]))
            ctx.counters['collections'] += 1
            verify(ctx, g)
    gc.collect()
    verify(ctx, g)
    if rng.random() < 0.3:
        reports(ctx, g)
    ctx.counters['finalised'] += len(DEAD)
    live = g.reach(g.roots)
    ctx.note('graph', steps, len(live), len(DEAD), Counter(trace).most_common(4), rng.random())
    g.roots.clear()
    gc.collect()
    NUM.clear()


# ------------------------------------------------------------------ live data: aimed sharing with dead cycles
def shared(ctx, rng, n, where, how):
    """A live and a dead vector share nodes that hold b; the dead side is on a cycle."""
    DEAD.clear()
    b, c = Box(), Box()
    NUM[id(b)], NUM[id(c)] = 1, 2
    l = list(range(1000, 1000 + n))
    l[where] = b
    v = P.pvector(l)
    w = DERIVE[how % len(DERIVE)](v, rng, n, where)
    wl = list(w) if not hasattr(w, 'persistent') else None
    dead = [v, w]
    # a cycle from c through the side that dies
    c.out.append(v)
    d = v.append(c) if rng.random() < 0.5 else v.set((where + 1) % n, c) if n > 1 else v.append(c)
    c.out.append(d)
    if rng.random() < 0.5:
        e = v.evolver()
        e[where] = c
        e.append(c)
        c.out.append(e)
        if rng.random() < 0.5:
            c.out.append(e.persistent())
        del e
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        e = _ev(v if rng.random() < 0.7 else d, rng.choice([(where + 1) % n, (where + 40) % n, 0]), c)
        c.out.append(e)
        if rng.random() < 0.3:
            c.out.append(e.persistent())
            if rng.random() < 0.5:
                e[n - 1] = c
        del e
    if rng.random() < 0.5:
        c.out.append(iter(d))
    if rng.random() < 0.25:
        reports(ctx, None)
    side = rng.randrange(3)
    keep = w if side == 1 else v if side == 0 else rng.choice([x for x in c.out if hasattr(x, 'evolver') or hasattr(x, 'is_dirty')])
    kl = list(keep) if hasattr(keep, 'tolist') else [keep[i] for i in range(len(keep))]
    held = any(x is b for x in kl)
    kn = len(kl)
    del v, w, d, c, dead, l, wl, kl
    if not held:
        b.out.append(5)
    ref = weakref.ref(b)
    if held:
        del b
    for _ in range(2):
        gc.collect()
        ctx.counters['collections'] += 1
        got = list(keep) if hasattr(keep, 'tolist') else [keep[i] for i in range(len(keep))]
        ctx.check_that(len(got) == kn, 'contents changed')
        if held:
            o = [x for x in got if type(x) is Box and x.__dict__.get('canary', (0, 0))[0] and x is ref()]
            ctx.check_that(ref() is not None and o, 'an element of a live vector was finalised or cleared', dead=sorted(DEAD, key=str), size=n, index=where)
            ctx.check_that(1 not in DEAD, 'finaliser of an element of a live vector was run', size=n, index=where)
            ctx.counters['verified'] += 1
            o = None
        got = x = None
    ctx.note('shared', n, where, how, side)
    NUM.clear()


def _ev(v, i, x):
    e = v.evolver()
    e[i] = x
    return e


DERIVE = [
    lambda v, r, n, i: v.append(7), lambda v, r, n, i: v.extend(range(40)), lambda v, r, n, i: v.set((i + 1) % n, 8), lambda v, r, n, i: v.set((i + 33) % n, 8), lambda v, r, n, i: v.set(i, v[i]), lambda v, r, n, i: _ev(v, (i + 1) % n, 3),
    lambda v, r, n, i: _ev(v, (i + 40) % n, 3), lambda v, r, n, i: _ev(v, (i + 1) % n, 3).persistent(), lambda v, r, n, i: v.evolver().append(1).persistent(), lambda v, r, n, i: v.evolver(), lambda v, r, n, i: v[:], lambda v, r, n, i: v.mset(0, v[0], n - 1, v[n - 1]),
    lambda v, r, n, i: v.append(1).append(2).append(3), lambda v, r, n, i: v + [1] * 33]


# ------------------------------------------------------------------ dead cycles are reclaimed
def cyc_makers():
    """name -> (f(box, n, where) -> object holding box, unshared)"""
    def fill(b, n, i):
        l = [1000] * n
        l[i] = b
        return l

    def appended(b, n, i):
        v = P.pvector()
        for x in fill(b, n, i):
            v = v.append(x)
        return v

    def chain(b, n, i):
        v = P.pvector(range(n)).set(i, b)
        return v.append(2)

    def ev_clean(b, n, i):
        return P.pvector(fill(b, n, i)).evolver()

    def ev_set(b, n, i):
        e = P.pvector(range(n)).evolver()
        e[i] = b
        return e

    def ev_app(b, n, i):
        e = P.pvector(range(n)).evolver()
        e.append(b)
        return e

    def ev_persist(b, n, i):
        e = P.pvector(range(n)).evolver()
        e[i] = b
        return e.persistent()

    def ev_after(b, n, i):
        e = P.pvector(range(n)).evolver()
        e[i] = b
        e.append(1)
        e.persistent()
        return e

    def ev_drop(b, n, i):
        e = P.pvector(fill(b, n, i)).evolver()
        p = e.persistent()
        e[0] = 7 if i else b
        del e
        return p

    def it_half(b, n, i):
        it = iter(P.pvector(fill(b, n, i)))
        next(it)
        return it

    def nested(b, n, i):
        return P.pvector([P.pvector(fill(b, n, i))])

    return [('bulk', lambda b, n, i: P.pvector(fill(b, n, i))), ('appended', appended), ('set chain', chain), ('clean evolver', ev_clean), ('evolver set', ev_set), ('evolver append', ev_app), ('evolver persistent', ev_persist), ('evolver after persistent', ev_after),
            ('evolver gone', ev_drop), ('iterator', lambda b, n, i: iter(P.pvector(fill(b, n, i)))), ('iterator half', it_half), ('nested', nested), ('delete', lambda b, n, i: P.pvector(fill(b, n, i) + [1]).delete(n)), ('slice', lambda b, n, i: P.pvector([1] + fill(b, n, i))[1:]),
            ('mset', lambda b, n, i: P.pvector(range(n)).mset(i, b, 0, b)), ('transform', lambda b, n, i: P.pvector(range(n)).transform([i], b)), ('mul', lambda b, n, i: P.pvector(fill(b, n, i)) * 2), ('remove', lambda b, n, i: P.pvector(['q'] + fill(b, n, i)).remove('q')),
            ('map value', lambda b, n, i: P.pmap({j: x for j, x in enumerate(fill(b, n, i))})), ('map key', lambda b, n, i: P.pmap({b: 1})), ('map evolver', lambda b, n, i: P.pmap().evolver().set(1, b)), ('set', lambda b, n, i: P.pset([b, 1])), ('bag', lambda b, n, i: P.pbag([b, b])),
            ('plist', lambda b, n, i: P.plist(fill(b, n, i)[:200] + [b])), ('deque', lambda b, n, i: P.pdeque(fill(b, n, i))), ('record', lambda b, n, i: Rec(a=b)), ('class', lambda b, n, i: Cls(a=b)), ('checked', lambda b, n, i: CV(fill(b, n, i))), ('checked map', lambda b, n, i: CM({1: b})),
            ('checked evolver', lambda b, n, i: CV(range(n)).evolver().append(b)), ('record evolver', lambda b, n, i: Rec().evolver().set('a', b)), ('class evolver', lambda b, n, i: Cls().evolver().set('a', b)), ('values()', lambda b, n, i: P.pmap({1: b}).values()), ('items()', lambda b, n, i: P.pmap({1: b}).items()),
            ('freeze', lambda b, n, i: P.freeze({'a': [fill(b, n, i)]})), ('map iter', lambda b, n, i: P.pmap({1: b}).iteritems())]


MAKERS = cyc_makers()


def reclaim(ctx, rng, m, n):
    name, make = MAKERS[m]
    for i in sorted({0, n - 1, n // 2, min(31, n - 1), min(32, n - 1)}):
        for link in range(3):
            DEAD.clear()
            b = Box()
            NUM[id(b)] = 9
            obj = make(b, n, i)
            if link == 0:
                b.out.append(obj)
            elif link == 1:
                b.other = {'k': (obj,)}
            else:
                c = Box()
                c.out.append(obj)
                b.out.append(P.pvector([c] * 3))
                del c
            r = weakref.ref(b)
            del b, obj
            gc.collect()
            gc.collect()
            ctx.counters['cycles'] += 1
            ctx.check_that(r() is None and 9 in DEAD, 'an unreachable cycle through a %s that shares no structure is not reclaimed' % name, size=n, index=i, link=link)
            NUM.clear()
    ctx.note('reclaim.' + name, n)


# ------------------------------------------------------------------ collections at every allocation
def stress(ctx, rng, F):
    state = rng.getstate()
    gc.set_threshold(1, 1, 1)
    bad = None
    try:
        fam.history(ctx, rng, P, F, 6)
    except Violation as e:
        bad = e
    finally:
        gc.set_threshold(700, 10, 10)
    if bad is not None:
        rng.setstate(state)
        gc.disable()
        try:
            fam.history(ctx, rng, P, F, 6)
        except Violation:
            ctx.counters['functional_mismatches'] += 1          # wrong without any collection as well: not this property
            return
        finally:
            gc.enable()
        raise bad
    ctx.counters['stressed'] += 1


def run(ctx):
    P.pvector([1]), P.freeze([1])
    gc.collect()
    gc.freeze()
    sizes = [1, 2, 31, 32, 33, 34, 64, 65, 100, 1023, 1024, 1025, 1056, 1057, 1058, 1089, 2100]
    for (n, how), rng in ctx.items('shared', [(n, h) for n in sizes for h in range(len(DERIVE))]):
        tail = ((n - 1) >> 5) << 5
        for where in sorted({0, n - 1, tail, max(tail - 1, 0), n // 2, min(32, n - 1)}):
            for _ in range(4):
                shared(ctx, rng, n, where, how)
    for (m, n), rng in ctx.items('reclaim', [(m, n) for m in range(len(MAKERS)) for n in sizes + ([32800, 33825] if m < 12 and ctx.impl == 'c' else [])]):
        reclaim(ctx, rng, m, n)
    for i, rng in ctx.cases('graph', 500):
        graph(ctx, rng, rng.choice([15, 40, 80]))
    for name, F in fam.FAMS.items():
        for i, rng in ctx.cases('stress.' + name, 12):
            stress(ctx, rng, F)
