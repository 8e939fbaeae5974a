"""C10: equality, hashing and ordering over groups of values with the same content and different histories, and over mixed pools."""
import operator, pickle, copy
import pyrsistent as P
from .base import *
from .fam import *
from .ops import Any
try:
    from pyrsistent._pvector import python_pvector
except ImportError:
    python_pvector = P.pvector


class CV(P.CheckedPVector):
    pass


class CV2(CV):
    __type__ = object


class CS(P.CheckedPSet):
    pass


class CM(P.CheckedPMap):
    pass


class Rec(P.PRecord):
    a = P.field()
    b = P.field()
    c = P.field()


class Rec2(P.PRecord):
    c = P.field()
    b = P.field()
    a = P.field()
    d = P.field()


class Cls(P.PClass):
    a = P.field()
    b = P.field()
    c = P.field()


class Base0(P.PClass):
    x = P.field()


class Sub0(Base0):
    y = P.field()


class Part(P.PClass):
    a = P.field()


def alt(rng, x):
    """An equal object of another identity/type where one exists."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return rng.choice([float(x), x]) if abs(x) < 2**50 else x
    if isinstance(x, float) and x == int(x):
        return int(x)
    if isinstance(x, K):
        return K(x.ident, x.h)
    if isinstance(x, tuple):
        return tuple(alt(rng, y) for y in x)
    return x


def elem(rng, ctx, depth=2):
    r = rng.random()
    if r < 0.5 or depth == 0:
        return rng.choice([0, 1, 2, -1, -2, True, 'a', '', None, 1.5, (), (1, 2), K(1, 5), K(2, 5), K(3, -1), 2**61 - 1, 2**61, -2**61])
    if r < 0.6 and ctx.consts['strs']:
        return rng.choice(ctx.consts['strs'])
    if r < 0.8:
        return E()
    xs = [elem(rng, ctx, depth - 1) for _ in range(rng.choice([0, 1, 3]))]
    return rng.choice([P.pvector, P.plist, P.pdeque, lambda z: P.pset(z), lambda z: P.pmap({y: 1 for y in z})])(xs)


# ---- builders: content -> list of values with that content, different routes
def vec_routes(rng, ctx, l):
    out = [build_vec(rng, ctx, P, l)[0] for _ in range(3)]
    out.append(python_pvector(l))
    out.append(CV(l))
    out.append(CV2(P.pvector(l)))
    e = P.pvector(l).evolver()
    if l:
        e[0] = None
        e[0] = l[0]
        e.append(1)
        e.delete(len(l))
    out.append(e.persistent())
    out.append(P.pvector([0, 1]).extend(l).delete(0, 2))
    out.append(P.pvector([alt(rng, x) for x in l]))
    return out


def map_routes(rng, ctx, d):
    items = list(d.items())
    rng.shuffle(items)
    out = [build_map(rng, ctx, P, dict(items))[0] for _ in range(3)]
    out.append(P.pmap({alt(rng, k): alt(rng, v) for k, v in items}))
    m = P.pmap({K('gone%d' % i, i): i for i in range(rng.choice([3, 20, 50]))})
    m = m.update(dict(items))
    for k in list(m):
        if isinstance(k, K) and str(k.ident).startswith('gone'):
            m = m.remove(k)
    out.append(m)
    out.append(CM(dict(items)))
    out.append(P.pmap(dict(items), pre_size=rng.choice([1, 3, 64])))
    e = P.pmap().evolver()
    for k, v in items:
        e[k] = None
    for k, v in items[::-1]:
        e[k] = v
    out.append(e.persistent())
    if d and all(k in ('a', 'b', 'c') for k in d):
        out.append(Rec(**d))
        out.append(Rec2(**d))
    return out


def set_routes(rng, ctx, xs):
    xs = list(xs)
    rng.shuffle(xs)
    out = [P.pset(xs), P.pset(xs[::-1], pre_size=rng.choice([1, 3, 64])), P.pset([alt(rng, x) for x in xs]), CS(xs), P.pmap({x: rng.choice([1, 2]) for x in xs}).keys(),
           CM({x: 1 for x in xs}).keys(), frozenset(xs), P.pset(xs + [K('gone', 3)]).remove(K('gone', 3)), P.pset(xs[:len(xs) // 2]) | set(xs[len(xs) // 2:])]
    v = P.pset()
    for x in xs:
        v = v.add(x)
    out.append(v)
    if xs and all(k in ('a', 'b', 'c') for k in xs):
        out.append(Rec(**{k: 1 for k in xs}).keys())
    return out


def bag_routes(rng, ctx, c):
    xs = [x for x, k in c.items() for _ in range(k)]
    rng.shuffle(xs)
    out = [P.pbag(xs), P.pbag(xs[::-1]), P.b(*xs), P.pbag([alt(rng, x) for x in xs]), P.pbag(xs + [K('gone', 1)]).remove(K('gone', 1)), P.pbag(xs[::2]) + P.pbag(xs[1::2])]
    return out


def plist_routes(rng, ctx, l):
    v = P.plist()
    for x in reversed(l):
        v = v.cons(x)
    return [P.plist(l), P.plist(l[::-1]).reverse(), v, P.plist([1] + l).rest, P.plist([alt(rng, x) for x in l]), P.l(*l), P.plist(l + [3, 4])[:len(l)]]


def deque_routes(rng, ctx, l):
    v = P.pdeque()
    for x in l:
        v = v.append(x)
    w = P.pdeque()
    for x in reversed(l):
        w = w.appendleft(x)
    return [P.pdeque(l), v, w, P.pdeque(l[::-1]).reverse(), P.pdeque([1] + l).popleft(), P.pdeque(l + [2]).pop(), P.pdeque([alt(rng, x) for x in l]), P.dq(*l),
            P.pdeque(l).rotate(3).rotate(-3), P.pdeque(l, maxlen=len(l) + 1)]


def cls_routes(rng, ctx, d):
    v = Cls()
    for k, x in d.items():
        v = v.set(k, x)
    w = Cls(a=1, b=2, c=3)
    for k in 'abc':
        w = w.set(k, d[k]) if k in d else w.remove(k)
    return [Cls(**d), v, w, Cls(**{k: alt(rng, x) for k, x in d.items()}), Cls.create(d)]


def group(ctx, vals, what):
    """All values have equal content: all must be equal, in all orders, with the same hash."""
    hs = [None] * len(vals)
    order = list(range(len(vals)))
    for i in order:
        hs[i] = attempt(hash, vals[i])
        for j in order:
            a, b = vals[i], vals[j]
            if isinstance(a, frozenset) and not isinstance(b, P.PSet):
                continue
            ctx.counters['pairs'] += 1
            ctx.check_that(a == b and not (a != b), '%s: values with the same content reached by different histories are not equal' % what, i=i, j=j,
                           a=a, b=b, types=(type(a), type(b)), hashed=[k for k in range(len(vals)) if hs[k]])
    ok = [h for h in hs if h[0] == 'ok']
    ctx.check_that(len(ok) in (0, len(hs)), '%s: only some of the equal values are hashable' % what, values=vals[:3], hashes=hs)
    ctx.check_that(len({h[1] for h in ok}) <= 1, '%s: equal values have different hashes' % what, hashes=[(type(v).__name__, h[1]) for v, h in zip(vals, hs)], value=vals[0])
    if ok:
        ctx.check_that(len(set(vals)) == 1, '%s: equal values do not collapse in a set' % what, value=vals[0])
        ctx.check_that(len(P.pset(vals)) == 1, '%s: equal values do not collapse in a PSet' % what, value=vals[0])


def differs(ctx, a, b, what):
    ctx.counters['pairs'] += 1
    r = (a == b, b == a, a != b, b != a)
    ctx.check_that(r == (False, False, True, True), '%s: values with different content compare equal (or == and != disagree)' % what, a=a, b=b, result=r)


def ordering(ctx, make, la, lb, ops, what):
    ta, tb = list(la), list(lb)
    for g in ops:
        x = attempt(g, make(la), make(lb))
        y = attempt(g, ta, tb)
        ctx.counters['orderings'] += 1
        ctx.check_that(x[0] == y[0] and (x[0] == 'exc' and type(x[1]) is type(y[1]) or x[0] == 'ok' and x[1] is y[1]),
                       '%s: %s is not the lexicographic one' % (what, g.__name__), a=la, b=lb, got=x, want=y)


def near_miss(rng, ctx, l):
    l2 = list(l)
    r = rng.random()
    if not l2 or r < 0.3:
        l2.insert(rng.randrange(len(l2) + 1), E())
    elif r < 0.6:
        l2[rng.randrange(len(l2))] = E()
    elif r < 0.8:
        del l2[rng.randrange(len(l2))]
    else:
        l2[-1] = E()
    return l2


def run(ctx):
    if ctx.worker == 0:
        a, b = Base0(x=1), Sub0(x=1, y=2)
        ctx.counters['probes'] += 1
        if a == b and hash(a) != hash(b):
            ctx.finding('pclass-subclass-eq-hash', 'Base(x=1) == Sub(x=1, y=2) although their hashes differ')
        b2 = Sub0(x=1)
        if a == b2 and hash(a) != hash(b2):
            ctx.finding('pclass-subclass-eq-hash', 'same')
    FULL = [operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne]
    PART = [operator.lt, operator.gt, operator.eq, operator.ne]
    for i, rng in ctx.cases('group', 900):
        n = size(rng, ctx, small=0.92, cap=1100)
        k = ['vec', 'map', 'map', 'set', 'set', 'bag', 'plist', 'deque', 'cls'][i % 9]
        ctx.note(k, n)
        if k in ('vec', 'plist', 'deque'):
            l = [elem(rng, ctx) for _ in range(min(n, 60) if k != 'vec' else n)]
            mk = {'vec': vec_routes, 'plist': plist_routes, 'deque': deque_routes}[k]
            vals = mk(rng, ctx, l)
            rng.shuffle(vals)
            group(ctx, vals, k)
            l2 = near_miss(rng, ctx, l)
            for b in mk(rng, ctx, l2)[:4]:
                differs(ctx, rng.choice(vals), b, k)
            if k == 'vec':
                ctx.check_that(vals[0] == l and l == vals[0] and not vals[0] != l, 'vector does not equal the list of its elements', value=vals[0])
            ol = [rng.choice([0, 1, 2, 3, True, 1.5]) for _ in range(rng.choice([0, 1, 2, 3, 33]))]
            o2 = list(ol)
            if o2 and rng.random() < 0.7:
                o2[rng.randrange(len(o2))] = rng.choice([0, 1, 2])
            if rng.random() < 0.4:
                o2 = o2[:rng.randrange(len(o2) + 1)]
            if rng.random() < 0.1:
                o2 = o2 + ['s']
            make = {'vec': rng.choice([P.pvector, python_pvector, CV]), 'plist': P.plist, 'deque': P.pdeque}[k]
            ordering(ctx, make, ol, o2, FULL if k == 'vec' else PART, k)
            # elements that are only partially ordered: every operator must ask the elements, none may be derived from another
            part = [frozenset(), frozenset([1]), frozenset([2]), frozenset([1, 2]), frozenset([3])]
            o3 = [rng.choice(part) for _ in range(rng.choice([1, 2, 3, 33]))]
            o4 = list(o3)
            o4[rng.randrange(len(o4))] = rng.choice(part)
            if rng.random() < 0.3:
                o4 = o4[:rng.randrange(len(o4) + 1)]
            ordering(ctx, make, o3, o4, FULL if k == 'vec' else PART, k + ' (partially ordered elements)')
        elif k == 'map':
            uni = (key_universe(rng, ctx, min(n, 100)) if rng.random() < 0.8 else ['a', 'b', 'c'])
            d = {x: elem(rng, ctx) for x in uni}
            if rng.random() < 0.1:
                d = {x: [1] for x in uni}
            vals = map_routes(rng, ctx, d)
            rng.shuffle(vals)
            if rng.random() < 0.5:
                attempt(hash, vals[0])
                attempt(hash, vals[-1])
            group(ctx, vals, k)
            ctx.check_that(vals[0] == d and d == vals[0], 'map does not equal the dict of its items', value=vals[0])
            d2 = dict(d)
            if d2 and rng.random() < 0.7:
                d2[rng.choice(list(d2))] = E()
            elif d2 and rng.random() < 0.5:
                x = d2.pop(rng.choice(list(d2)))
                d2[E()] = x
            else:
                d2[E()] = 1
            for b in map_routes(rng, ctx, d2)[:4]:
                differs(ctx, rng.choice(vals), b, k)
            differs(ctx, vals[0], d2, k)
            if all(isinstance(v, P.PMap) for v in vals):
                its = [v.items() for v in vals]
                ctx.check_that(all(x == its[0] and its[0] == x for x in its if type(x) is type(its[0])), 'items views of equal maps differ', value=vals[0])
            for g in (operator.lt, operator.le, operator.gt, operator.ge):
                r = attempt(g, vals[0], vals[1])
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], TypeError), 'maps are orderable', got=r)
        elif k == 'set':
            xs = key_universe(rng, ctx, min(n, 100)) if rng.random() < 0.8 else ['a', 'b', 'c']
            vals = set_routes(rng, ctx, xs)
            rng.shuffle(vals)
            group(ctx, vals, k)
            x2 = near_miss(rng, ctx, xs)
            for b in set_routes(rng, ctx, x2)[:5]:
                differs(ctx, rng.choice([v for v in vals if not isinstance(v, frozenset)]), b, k)
        elif k == 'bag':
            c = {x: rng.choice([1, 1, 2, 5]) for x in key_universe(rng, ctx, min(n, 50))}
            vals = bag_routes(rng, ctx, c)
            group(ctx, vals, k)
            c2 = dict(c)
            if c2 and rng.random() < 0.7:
                c2[rng.choice(list(c2))] += 1
            else:
                c2[E()] = 1
            for b in bag_routes(rng, ctx, c2)[:3]:
                differs(ctx, rng.choice(vals), b, k)
        else:
            d = {f: elem(rng, ctx) for f in 'abc' if rng.random() < 0.7}
            vals = cls_routes(rng, ctx, d)
            group(ctx, vals, k)
            d2 = dict(d)
            f = rng.choice('abc')
            if f in d2 and rng.random() < 0.4:
                del d2[f]
            else:
                d2[f] = E()
            for b in cls_routes(rng, ctx, d2):
                differs(ctx, rng.choice(vals), b, k)
    for i, rng in ctx.cases('samehash', 240):
        samehash(ctx, rng)
    for i, rng in ctx.cases('pool', 250):
        pool(ctx, rng)


def samehash(ctx, rng):
    """Different contents whose hashes agree: never equal, whichever hashes were computed before."""
    n = rng.choice([1, 2, 3, 8, 33, 70])
    base = [K('b%d' % j, rng.choice([3, j])) for j in range(n)]
    i, h = rng.randrange(n), base[0].h
    x, y = rng.choice([(-1, -2), (K('p', h), K('q', h)), ((1, -1), (1, -2)), (P.pvector([-1]), P.pvector([-2])), (P.pmap({1: -1}), P.pmap({1: -2})), (frozenset([-1]), frozenset([-2])), (P.pset([-1]), P.pset([-2])), (P.plist([-1]), P.plist([-2]))])
    a, b = list(base), list(base)
    a[i], b[i] = x, y
    if n > 1 and rng.random() < 0.3:
        j = (i + 1) % n
        a, b = list(base), list(base)
        a[i], a[j], b[i], b[j] = x, y, y, y
    val = rng.choice([1, None, 'v'])
    f = [(t, (lambda r: lambda l: rng.choice(r(rng, ctx, l)))(r)) for t, r in (('vec', vec_routes), ('plist', plist_routes), ('deque', deque_routes))] + [('map keys', lambda l: rng.choice(map_routes(rng, ctx, {k: val for k in l}))), ('map values', lambda l: rng.choice(map_routes(rng, ctx, dict(enumerate(l))))),
         ('set', lambda l: rng.choice([s for s in set_routes(rng, ctx, set(l)) if not isinstance(s, frozenset)])), ('bag', lambda l: rng.choice(bag_routes(rng, ctx, {k: l.count(k) for k in l}))), ('cls', lambda l: Cls(a=l[0], b=l[i], c=l[-1])), ('rec', lambda l: Rec(a=l[0], b=l[i], c=l[-1]))]
    for what, mk in f:
        if what == 'set' and set(a) == set(b):
            continue
        u, v = mk(a), mk(b)
        for step in range(3):
            differs(ctx, u, v, what + ' with equal hashes')
            w = mk(a)
            ctx.check_that(u == w and w == u, what + ': values with the same content are not equal', a=u, b=w)
            attempt(hash, (u, v)[step % 2])
        ctx.counters['same_hash'] += hash(u) == hash(v)
        ctx.check_that(len({u: 1, v: 2}) == 2 and len(P.pmap({u: 1, v: 2})) == 2 and len(P.pset([u, v, mk(a)])) == 2, what + ': values with equal hashes collapse', a=u, b=v)
    ctx.note('samehash', n, i)


VIEWS = type(P.pmap().values()), type(P.pmap().items())      # == is False for everything that is no such view


def pool(ctx, rng):
    """All pairs of a mixed pool: symmetry, negation, hash agreement - whatever the kinds."""
    vals = []
    ls = [[rng.choice([0, 1, 2, 'a', 'b', None]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] for _ in range(3)]
    for l in ls:
        d = {x: 1 for x in l}
        fd = {f: 1 for f in 'abc' if f in l}
        vals += [P.pvector(l), python_pvector(l), CV(l), list(l), tuple(l), P.plist(l), P.pdeque(l), P.pdeque(l, 5), P.pset(l), CS(l), set(l), frozenset(l),
                 P.pmap(d), CM(d), dict(d), P.pmap(d).keys(), P.pmap(d).items(), P.pmap(d).values(), Rec(**fd), Rec2(**fd), P.pmap(fd), Cls(**fd), P.freeze(l), P.freeze(d)]
    vals = rng.sample(vals, 24)
    for a in vals:
        ctx.check_that(a == a and not a != a, 'not equal to itself', value=a, type=type(a))
        if not isinstance(a, VIEWS):
            z = Any()
            ctx.check_that((a == z, z == a, a != z, z != a) == (True, True, False, False), 'equality with an object equal to everything is not symmetric', value=a, type=type(a))
        for b in vals:
            ctx.counters['pairs'] += 1
            e, f, ne = a == b, b == a, a != b
            ctx.check_that(type(e) is type(f) is type(ne) is bool, '== or != is neither True nor False', a=a, b=b, types=(type(a), type(b)), result=(e, f, ne))
            ctx.check_that(bool(e) == bool(f), 'equality is not symmetric', a=a, b=b, types=(type(a), type(b)), result=(e, f))
            ctx.check_that(bool(e) == (not ne), '!= is not the negation of ==', a=a, b=b, types=(type(a), type(b)))
            if e:
                ha, hb = attempt(hash, a), attempt(hash, b)
                if ha[0] == hb[0] == 'ok':
                    ctx.counters['equal_pairs'] += 1
                    ctx.check_that(ha[1] == hb[1], 'equal values have different hashes', a=a, b=b, types=(type(a), type(b)))
                    ctx.check_that(b in {a: 1} and a in P.pmap({b: 1}), 'equal values do not find each other', a=a, b=b)
    ctx.note('pool', [type(v).__name__ for v in vals])
