"""C03: the same program is run on the C vector and on the Python vector, step by step; every observation must agree."""
import copy, operator, pickle
from decimal import Decimal
from fractions import Fraction
from types import SimpleNamespace
from collections.abc import Sequence, Hashable
import pyrsistent as R
from pyrsistent._pvector import python_pvector
from .base import *
from .fam import *


class AnyVec(R.CheckedPVector):
    """Public way to a Python implementation vector in a process that uses the C extension."""


class Boom(Exception):
    pass


class Touchy:
    """Comparisons raise."""

    def __init__(self, exc=Boom):
        self.exc = exc

    def __eq__(self, o):
        raise self.exc()

    def __hash__(self):
        raise self.exc()

    def __lt__(self, o):
        raise self.exc()

    __gt__ = __le__ = __ge__ = __lt__


class Sel:
    """The implementation currently selected."""
    cur, plist, pdeque = R.pvector, staticmethod(R.plist), staticmethod(R.pdeque)

    def pvector(self, *a):
        return Sel.cur(*a)

    def v(self, *a):
        return Sel.cur(a)


S = Sel()
C, PY = R.pvector, python_pvector


def both(f, c, p):
    Sel.cur = C
    rc = attempt(f, c)
    Sel.cur = PY
    rp = attempt(f, p)
    Sel.cur = C
    return rc, rp


def describe(r):
    return r[1] if r[0] == 'ok' else '%s: %s' % (type(r[1]).__name__, r[1])


def kind(e):
    k = exc_kind(e)
    return k


def isvec(x):
    return isinstance(x, R.PVector)


def agree(ctx, a, b):
    if isvec(a) and isvec(b):
        return same_vec(a, b)
    if isvec(a) != isvec(b):
        return False
    if hasattr(a, 'persistent') and hasattr(b, 'persistent'):
        return same_vec(a.persistent(), b.persistent())
    if type(a) in (list, tuple) and type(a) is type(b) and a is not b:
        return len(a) == len(b) and all(agree(ctx, x, y) for x, y in zip(a, b))
    return same(a, b) or obs_same(a, b)


def same_vec(a, b):
    la, lb = a.tolist(), b.tolist()
    return len(a) == len(b) and len(la) == len(lb) and all(same(x, y) for x, y in zip(la, lb)) and all(same(x, y) for x, y in zip(a, b))


def compare(ctx, what, rc, rp):
    ctx.counters['compared'] += 1
    if rc[0] != rp[0]:
        ctx.fail('%s: one implementation raises, the other does not' % what, c=describe(rc), python=describe(rp))
    if rc[0] == 'exc':
        ctx.counters['failing_ops'] += 1
        if kind(rc[1]) != kind(rp[1]):
            ctx.fail('%s: different kinds of exceptions' % what, c=describe(rc), python=describe(rp))
        return
    if not agree(ctx, rc[1], rp[1]):
        ctx.fail('%s: different results' % what, c=rc[1], python=rp[1])


class Odd:
    """Comparisons answer with objects of their own, not with booleans."""

    def __lt__(self, o):
        return 'lt'

    def __le__(self, o):
        return []

    def __gt__(self, o):
        return 0

    def __ge__(self, o):
        return 'ge'


NAN = float('nan')
PARTIAL = [frozenset(), frozenset([1]), frozenset([2]), frozenset([1, 2]), frozenset([3]), NAN, float('nan'), 1, 2, Odd(), Odd()]
CMPS = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]


def cross(ctx, c, p, rng):
    """Mixing both implementations."""
    ctx.counters['mixed'] += 1
    ctx.check_that(c == p and p == c and not c != p and not p != c, 'equal vectors of the two implementations do not compare equal', c=c, python=p)
    hc, hp = attempt(hash, c), attempt(hash, p)
    ctx.check_that(hc[0] == hp[0] and (hc[0] == 'exc' or hc[1] == hp[1]), 'hashes differ between the implementations', c=hc, python=hp, value=c)
    if hc[0] == 'ok':
        d = {c: 1}
        ctx.check_that(d.get(p) == 1 and p in d and {p: 2}.get(c) == 2, 'equal vectors do not find each other as dict keys', c=c)
    ctx.check_that(same_vec(c.extend(p), p.extend(c)) and same_vec(c + p, p + c), 'the implementations do not extend each other', c=c)
    if rng.random() < 0.3:
        a = AnyVec(c)
        ctx.check_that(a == c and c == a and not a != c and not c != a, 'checked vector does not equal the vector it was made from', c=c)
        ha = attempt(hash, a)
        ctx.check_that(ha[0] == hc[0] and (ha[0] == 'exc' or ha[1] == hc[1]), 'hash of an equal checked vector differs', c=c)
        ctx.check_that(same_vec(c.extend(a), p.extend(a)), 'extending with a checked vector differs', c=c)


class Ix:
    """Not a number, but usable as an index."""

    def __init__(self, i):
        self.i = i

    def __index__(self):
        if self.i is None:
            raise Boom()
        return self.i


class IntSub(int):
    pass


class Odd:
    """Comparisons answer something that is no bool."""

    def __init__(self, ans):
        self.ans = ans

    def __eq__(self, o):
        return self.ans

    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__
    __hash__ = object.__hash__


class Yes:
    def __eq__(self, o):
        return True

    __hash__ = None

    def __rmul__(self, o):
        return 'rmul'

    def __radd__(self, o):
        return 'radd'


def indexlike(rng, n):
    """Operations with something like an index."""
    i = rng.choice([0, 1, -1, n - 1, n, -n, -n - 1, 2, 2**63, -2**63 - 1, 10**30, -10**30])
    x = rng.choice([Ix(i), Ix(i), Ix(i), Ix(None), float(i), 0.5, -1.5, i == 0, IntSub(i), None, '1', Fraction(i), Decimal(i), complex(i), [i]])
    y, o = E(), Yes()

    def ev(f, extra):
        def g(v):
            e = v.evolver()
            for k in range(extra):
                e.append(k)
            r = f(e)
            return (r if r is not e else 0), e.persistent()
        return g
    k = rng.choice([0, 0, 1, 3])
    L = [('get', lambda v: v[x]), ('set', lambda v: v.set(x, y)), ('mset', lambda v: v.mset(x, y)), ('mset2', lambda v: v.mset(0, 1, x, y)), ('delete', lambda v: v.delete(x)), ('delete from', lambda v: v.delete(x, n)),
         ('delete to', lambda v: v.delete(0, x)), ('delete from None', lambda v: v.delete(x, None)), ('slice from', lambda v: v[x:]), ('slice to', lambda v: v[:x]), ('slice step', lambda v: v[::x]), ('index from', lambda v: v.append(y).index(y, x)),
         ('index to', lambda v: v.append(y).index(y, 0, x)), ('mul', lambda v: v * x if n < 2000 else 0), ('rmul', lambda v: x * v if n < 2000 and type(x) is not list else 0), ('transform', lambda v: v.transform([x], y) if not callable(x) else 0), ('transform nested', lambda v: v.append(v).transform([-1, x], y)[-1]),
         ('evolver get', ev(lambda e: e[x], k)), ('evolver set', ev(lambda e: e.set(x, y), k)), ('evolver setitem', ev(lambda e: operator.setitem(e, x, y), k)), ('evolver delete', ev(lambda e: e.delete(x), k)), ('evolver delitem', ev(lambda e: operator.delitem(e, x), k)),
         ('get_in', lambda v: R.get_in([x], v, 'none') if not isinstance(x, Ix) or x.i is not None else 0), ('mul other', lambda v: v * o), ('index yes', lambda v: (v.append(o).index(y), v.count(o), o in v, y in v.append(o), v.append(o).count(y)) if n else 0), ('remove yes', lambda v: v.append(y).remove(o)),
         ('eq yes', lambda v: (v == o, v != o, o == v)), ('count', lambda v: v.count(x)), ('in', lambda v: x in v)]
    return rng.choice(L)


def hostile(rng, ctx, n):
    if rng.random() < 0.25:
        return indexlike(rng, n)
    return hostile_any(rng, ctx, n)


def hostile_any(rng, ctx, n):
    """Operations outside of the ordinary: wrong types, boundary integers, raising callbacks, odd argument counts."""
    junk = rng.choice([None, 'a', [], {}, object(), (), b'x'])
    bigi = rng.choice([2**31 - 1, 2**31, -2**31, 2**62, -2**62, 2**63 - 1, -2**63, n, -n, n + 1, -n - 1, 2**63, -2**63 - 1, 2**64 + 1, 10**30, -10**30])
    x = E()
    exc = rng.choice([Boom, TypeError, MemoryError, OverflowError, ZeroDivisionError])
    tz = Touchy(exc)
    ans = rng.choice([0, '', 1, 'yes', None, 0.0])
    oa, ob, nan = Odd(ans), Odd(ans), float('nan')
    j = rng.choice([0, 1, 5, 31, 32, 33, 40])

    def it(k=j, e=exc):
        for i in range(k):
            yield i
        raise e()
    other = rng.choice([5, None, 'abc', (1, 2), [1, 2], {1: 2}, object, 1.5])
    a, b = bound(rng, n), bound(rng, n)
    pa, pb, te = rng.choice(PARTIAL), rng.choice(PARTIAL), [rng.choice(PARTIAL) for _ in range(rng.choice([0, 0, 1, 2, 40]))]
    L = [
        ('v[junk]', lambda v: v[junk]), ('v[big]', lambda v: v[bigi]), ('v.set(big)', lambda v: v.set(bigi, x)), ('v.set(junk)', lambda v: v.set(junk, x)),
        ('v.mset(big)', lambda v: v.mset(0, x, bigi, x)), ('v.mset(junk)', lambda v: v.mset(0, x, junk, x)), ('v.mset odd', lambda v: v.mset(0, x, 1)), ('v.mset()', lambda v: v.mset()),
        ('v.delete(big)', lambda v: v.delete(bigi)), ('v.delete(i,big)', lambda v: v.delete(rng.choice([0]), bigi)), ('v.delete(None-stop)', lambda v: v.delete(0, None)),
        ('v.delete(1,0)', lambda v: v.delete(1, 0)), ('v.delete(junk)', lambda v: v.delete(junk)),
        ('extend(raising)', lambda v: v.extend(it())), ('+raising', lambda v: v + it()), ('extend(5)', lambda v: v.extend(5)), ('extend(None)', lambda v: v.extend(None)), ('+5', lambda v: v + 5),
        ('v*junk', lambda v: v.append(x) * junk), ('v*neg', lambda v: v * -5), ('v*True', lambda v: v * True), ('v*0', lambda v: v * 0),
        ('remove(touchy)', lambda v: v.remove(tz)), ('index(touchy)', lambda v: v.index(tz)), ('count(touchy)', lambda v: v.count(tz)), ('touchy in', lambda v: tz in v),
        ('append(touchy).remove', lambda v: v.append(tz).remove(x)), ('append(touchy).index', lambda v: v.append(tz).index(x)), ('append(touchy).count', lambda v: v.append(tz).count(x)),
        ('hash touchy', lambda v: hash(v.append(tz))), ('eq touchy', lambda v: v.append(tz) == v.append(x)), ('lt touchy', lambda v: v.append(tz) < v.append(x)), ('x in touchy', lambda v: x in v.append(tz)),
        ('odd answers', lambda v: [repr(g(v.append(oa).append(x), v.append(ob).append(oa))) for g in CMPS] + [repr(v.append(oa).count(ob)), repr(ob in v.append(oa))]),
        ('own identity', lambda v: [v.append(oa).count(oa), oa in v.append(oa), attempt(lambda: v.append(oa).index(oa))[0], len(attempt(lambda: v.append(oa).remove(oa))[1:]), nan in v.append(nan), v.append(nan).count(nan), v.append(nan).index(nan)]
         + [repr(g(v.append(nan), v.append(nan))) for g in CMPS] + [repr(g(v.append(oa), v.append(oa))) for g in CMPS] + [len(v.append(nan).append(x).remove(nan)), hash(v.append(nan)) if n < 3 else 0]),
        ('eq other', lambda v: (v == other, v != other)), ('lt other', lambda v: v < other), ('other+', lambda v: other + v),
        ('bool key', lambda v: v[True]), ('set bool', lambda v: v.set(False, x)), ('append()', lambda v: v.append()), ('append(1,2)', lambda v: v.append(1, 2)), ('set(1)', lambda v: v.set(1)),
        ('setitem', lambda v: operator.setitem(v, 0, x)), ('delitem', lambda v: operator.delitem(v, 0)), ('setattr', lambda v: setattr(v, 'foo', 1)), ('getattr', lambda v: v.nope),
        ('index range', lambda v: v.index(x, a or 0, b or 0)), ('index absent', lambda v: v.index(x)), ('remove absent', lambda v: v.remove(x)),
        ('slice junk', lambda v: v['a':]), ('slice step 0', lambda v: v[::0]), ('slice big', lambda v: v[bigi:]), ('slice big2', lambda v: v[:bigi:2]), ('slice abs', lambda v: v[a:b:rng.choice([None])]),
        ('partial order', lambda v: [attempt(g, v.append(pa).extend(te), v.append(pb).extend(te))[1] if not attempt(g, pa, pb)[0] == 'exc' else attempt(g, v.append(pa), v.append(pb))[0] for g in CMPS]),
        ('partial order prefix', lambda v: [attempt(g, v.append(pa), v.append(pb).append(pb))[0] if attempt(g, pa, pb)[0] == 'exc' else g(v.append(pa), v.append(pb).append(pb)) for g in CMPS]),
        ('reversed', lambda v: list(reversed(v))), ('sorted', lambda v: sorted(v, key=id)), ('isinstance', lambda v: (isinstance(v, R.PVector), isinstance(v, Sequence), isinstance(v, Hashable))),
        ('pickle', lambda v: list(map(type, pickle.loads(pickle.dumps(v[:0].extend([1, 2])))))), ('copy', lambda v: copy.copy(v)), ('repr', lambda v: repr(v)), ('str', lambda v: str(v)),
        ('transform', lambda v: v.transform([lambda i: i % 2 == 0], x)), ('transform raise', lambda v: v.transform([R.ny], lambda y: it().__next__() if j == 0 else y)),
        ('transform discard', lambda v: v.transform([lambda i: i % 3 == 0], R.discard)), ('transform idx', lambda v: v.transform([0], x)), ('transform beyond', lambda v: v.transform([n + 5], x)),
        ('min', lambda v: len(v) and v[len(v) - 1]), ('pvector(junk)', lambda v: S.pvector(5)), ('pvector(raise)', lambda v: S.pvector(it())), ('evolver junk', lambda v: v.evolver().set(junk, x)),
        ('evolver big', lambda v: v.evolver().set(bigi, x)), ('evolver del big', lambda v: operator.delitem(v.evolver(), bigi)), ('evolver extend raise', lambda v: v.evolver().extend(it())),
        ('evolver extend 5', lambda v: v.evolver().extend(5)), ('evolver get big', lambda v: v.evolver()[bigi]), ('evolver get junk', lambda v: v.evolver()[junk] if junk != () else 0),
        ('iter next', lambda v: [next(iter(v), 'end'), next(iter(v[:0]), 'end')]), ('unpack', lambda v: [*v][:3]), ('tuple', lambda v: tuple(v)),
        ('empty extend is', lambda v: v.extend([]) is v), ('set same', lambda v: v.set(0, v[0])), ('get_in', lambda v: (R.get_in([0], v), R.get_in([bigi], v, 'dflt'))),
        ('doc', lambda v: callable(v.append)), ('len0', lambda v: len(v.delete(0, len(v)))), ('mul index', lambda v: (v * 2).index(v[0]) if len(v) else 0),
        ('dict key', lambda v: {v[:0]: 1}.get(S.pvector())), ('eq list', lambda v: v == v.tolist()), ('eq tuple', lambda v: v == tuple(v)), ('ne list', lambda v: v != v.tolist()), ('lt list', lambda v: v < [x]),
    ]
    return rng.choice(L)


def run(ctx):
    if ctx.mode == 'sweep':
        return sweep(ctx)
    for _, rng in ctx.cases('pair', 900):
        pair_history(ctx, rng, rng.choice([8, 25, 50]))
    for _, rng in ctx.cases('evolvers', 500):
        pair_evolvers(ctx, rng, rng.choice([10, 30, 60]))


def pair_history(ctx, rng, steps):
    l = values(rng, size(rng, ctx, small=0.7), ctx)
    salt = rng.random()
    rc, rp = both(lambda _: build_vec(random.Random(salt), ctx, S, l)[0], None, None)
    compare(ctx, 'construction', rc, rp)
    pool = [(rc[1], rp[1])]
    for _ in range(steps):
        c, p = pool[-1] if rng.random() < 0.6 else rng.choice(pool)
        m = p.tolist()
        if rng.random() < 0.45:
            name, f = hostile(rng, ctx, len(m))
            ctx.note(name, len(m))
            state = rng.getstate()

            def g(v, f=f):
                rng.setstate(state)
                return f(v)
            r = both(g, c, p)
        else:
            op = gen_vec(rng, ctx, S, m, [(rng.choice(x), x[1].tolist()) for x in pool])
            name, f = op.name, op.f
            ctx.note(name, len(m), op.desc)
            r = both(f, c, p)
        compare(ctx, name, *r)
        cross(ctx, c, p, rng) if rng.random() < 0.2 else None
        if r[0][0] == 'ok':
            a, b = r[0][1], r[1][1]
            if name == 'evolve':
                a, b = a[0], b[0]
            if isvec(a) and isvec(b) and len(a) < 3000:
                pool.append((a, b))
                if len(pool) > 6:
                    pool.pop(rng.randrange(5))
        ctx.check_that(same_vec(c, p), 'vectors drifted apart', after=name)
        if len(pool) > 1 and rng.random() < 0.3:
            c2, p2 = rng.choice(pool)
            for g in CMPS:
                res = [attempt(g, x, y) for x in (c, p) for y in (c2, p2)]
                ctx.check_that(len({(k, kind(z) if k == 'exc' else z) for k, z in res}) == 1, 'comparison %s depends on the implementation' % g.__name__,
                               results=[describe(z) for z in res], a=c, b=c2)


def pair_evolvers(ctx, rng, steps):
    l = values(rng, size(rng, ctx, small=0.7), ctx)
    oc, op_ = C(l), PY(l)
    evs = [(oc.evolver(), op_.evolver())]
    origs = [(oc, op_)]
    last = [(oc, op_)]
    for _ in range(steps):
        if rng.random() < 0.08:
            i = rng.randrange(len(origs))
            evs.append((origs[i][0].evolver(), origs[i][1].evolver()))
            last.append(origs[i])
        j = rng.randrange(len(evs))
        ec, ep = evs[j]
        r = rng.random()
        if r < 0.55:
            o = gen_vec_evolver(rng, ctx, len(ep))
            ctx.note('ev.' + o.name, len(ep), o.desc)
            x, y = both(o.f, ec, ep)
            compare_ev(ctx, o.name, x, y, ec, ep)
        elif r < 0.7:
            name, f = hostile_ev(rng, len(ep))
            ctx.note('ev.' + name, len(ep))
            x, y = both(f, ec, ep)
            compare_ev(ctx, name, x, y, ec, ep)
        elif r < 0.85:
            ctx.note('ev.persistent', len(ep))
            a, b = ec.persistent(), ep.persistent()
            ctx.check_that(same_vec(a, b), 'persistent() differs', c=a, python=b)
            ctx.check_that((a is last[j][0]) == (b is last[j][1]), 'persistent() returns the same object in one implementation only', size=len(b))
            last[j] = (a, b)
            origs.append((a, b))
            if len(origs) > 8:
                origs.pop(0)
        else:
            ctx.note('ev.read', len(ep))
            n = len(ep)
            idx = range(-n, n) if n < 40 else [rng.randrange(-n, n) for _ in range(20)]
            for i in idx:
                ctx.check_that(same(ec[i], ep[i]), 'evolver reads differ', index=i)
        ctx.check_that(len(ec) == len(ep), 'evolver lengths differ', c=len(ec), python=len(ep))
        ctx.check_that(ec.is_dirty() is ep.is_dirty(), "is_dirty() differs", c=ec.is_dirty(), python=ep.is_dirty())
    for a, b in origs:
        ctx.check_that(same_vec(a, b), 'vectors drifted apart')
    for ec, ep in evs:
        ctx.check_that(same_vec(ec.persistent(), ep.persistent()), 'evolver results drifted apart')


def compare_ev(ctx, name, x, y, ec, ep):
    if x[0] == y[0] == 'ok' and x[1] is ec:
        ctx.check_that(y[1] is ep, name + ': chaining differs', python=y[1])
        return
    compare(ctx, 'evolver ' + name, x, y)


def hostile_ev(rng, n):
    junk = rng.choice([None, 'a', [], object()])
    bigi = rng.choice([2**31, -2**31, 2**62, -2**62, 2**63 - 1, n, -n, n + 1, -n - 1, 10**30, -10**30])
    x = E()
    exc = rng.choice([Boom, TypeError, MemoryError])

    def it(k):
        for i in range(k):
            yield i
        raise exc()
    k = rng.choice([0, 1, 31, 33])
    return rng.choice([
        ('set big', lambda e: e.set(bigi, x)), ('item big', lambda e: operator.setitem(e, bigi, x)), ('set junk', lambda e: e.set(junk, x)), ('del big', lambda e: operator.delitem(e, bigi)),
        ('delete big', lambda e: e.delete(bigi)), ('get big', lambda e: e[bigi]), ('get junk', lambda e: e[junk]), ('extend raise', lambda e: e.extend(it(k))), ('extend 5', lambda e: e.extend(5)),
        ('append()', lambda e: e.append()), ('extend gen', lambda e: e.extend(y for y in [1, 2])), ('del junk', lambda e: operator.delitem(e, junk)),
        ('extend vec', lambda e: e.extend(S.pvector([1, 2])))])


def sweep(ctx):
    from .cmodel import routes
    sizes = sorted(set(BOUNDARY) | set(ctx.consts['sizes'])) + [32767, 32768, 32769, 32800, 32801, 33824, 33825]
    elems = [E() for _ in range(max(sizes) + 1)]
    for n, rng in ctx.items('sweep', sizes):
        l = elems[:n]
        for (how, mk) in routes(S, l):
            ctx.note('sweep', how, n)
            rc, rp = both(lambda _: mk(), None, None)
            compare(ctx, how, rc, rp)
            c, p = rc[1], rp[1]
            cross(ctx, c, p, rng)
            x = E()
            tail = ((n - 1) >> 5) << 5 if n else 0
            for i in sorted({0, n - 1, n, n + 1, -1, -n, -n - 1, tail, tail - 1, tail - 32, 31, 32, 1023, 1024}):
                for what, f in (('set', lambda v: v.set(i, x)), ('get', lambda v: v[i]), ('delete', lambda v: v.delete(i)), ('slice', lambda v: v[i:]),
                                ('mset', lambda v: v.mset(i, x, 0, x)), ('evset', lambda v: v.evolver().set(i, x).persistent()),
                                ('evdel', lambda v: v.evolver().delete(i).persistent())):
                    if n > 5000 and what in ('delete', 'evdel', 'slice') and i not in (0, n - 1):
                        continue
                    compare(ctx, '%s at %d of %d' % (what, i, n), *both(f, c, p))
            for k in (1, 31, 32, 33, 1056):
                xs = elems[:k]
                compare(ctx, 'extend', *both(lambda v: v.extend(xs), c, p))
                compare(ctx, 'evolver extend', *both(lambda v: v.evolver().extend(xs).persistent(), c, p))
