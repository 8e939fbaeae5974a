"""C17: the k-th call of user code inside an operation raises, for every k; everything must be as it was."""
import copy, operator, pickle
import pyrsistent as P
from .base import *
from . import fam, ops
from .ops import gen_map, gen_set, gen_bag


# ------------------------------------------------------------------ fault injection
class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class BoomType(TypeError):
    pass


class BoomRuntime(RuntimeError):
    pass


class BoomArith(ArithmeticError):
    pass


KINDS = [Boom, BoomBase, BoomType, BoomRuntime, BoomArith]
NOT_TYPE = [Boom, BoomBase, BoomRuntime, BoomArith]


def look(name, *bases):
    return type('Boom' + name, bases, {})


# what the library itself catches around look-ups: to be raised by functions it is given, where it has no business to be caught
LOOKUP = [look(e.__name__, e) for e in (KeyError, IndexError, AttributeError, ValueError, LookupError)]
FUNCTIONS = {'pred', 'command', 'merge', 'factory', 'invariant', 'initial', 'serializer', 'global invariant', 'mutant'}


class Fault:
    on = False
    alt = raised = None
    n = 0
    at = None
    exc = None
    site = '-'

    @classmethod
    def tick(cls, site):
        if cls.on:
            cls.n += 1
            if cls.n == cls.at:
                cls.site = site
                cls.raised = cls.alt if cls.alt is not None and site in FUNCTIONS else cls.exc
                raise cls.raised

    @classmethod
    def clear(cls):
        cls.on = False
        cls.exc = cls.alt = cls.raised = None      # with their tracebacks

    @classmethod
    def run(cls, thunk, at=None, exc=None, alt=None):
        """-> ('ok', r) / ('exc', e), number of callbacks; the function sites raise alt, if given"""
        cls.alt, cls.raised = alt, None
        cls.n, cls.at, cls.exc, cls.on = 0, at, exc, True
        try:
            r = 'ok', thunk()
        except Exception as e:
            r = 'exc', e
        except BoomBase as e:
            r = 'exc', e
        finally:
            cls.on = False
        return r, cls.n


tick = Fault.tick


class FE:
    """Element/key whose comparisons, hash and repr can be made to raise.  Equal iff same ident."""
    def __init__(self, ident, h=0):
        self.ident, self.h = ident, h

    def __hash__(self):
        tick('hash')
        return self.h

    def __eq__(self, o):
        tick('eq')
        return isinstance(o, FE) and self.ident == o.ident

    def __ne__(self, o):
        tick('ne')
        return not (isinstance(o, FE) and self.ident == o.ident)

    def __lt__(self, o):
        tick('lt')
        return self.ident < o.ident

    def __gt__(self, o):
        tick('gt')
        return self.ident > o.ident

    def __le__(self, o):
        tick('le')
        return self.ident <= o.ident

    def __ge__(self, o):
        tick('ge')
        return self.ident >= o.ident

    def __repr__(self):
        tick('repr')
        return 'FE(%r)' % self.ident

    def __reduce__(self):
        tick('reduce')
        return FE, (self.ident, self.h)


class FIter:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        tick('iter')
        for x in list(self.items):
            tick('next')
            yield x
        tick('next')


class FIter2:
    """Iterator object with a length hint."""
    def __init__(self, items):
        self.it = iter(list(items))

    def __iter__(self):
        tick('iter')
        return self

    def __next__(self):
        tick('next')
        return next(self.it)

    def __length_hint__(self):
        return 5


class FSeq:
    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        tick('getitem')
        return self.items[i]


class FMap:
    """A mapping implemented in Python."""
    def __init__(self, d):
        self.d = dict(d)

    def keys(self):
        tick('keys')
        return list(self.d)

    def items(self):
        tick('items')
        return list(self.d.items())

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        tick('iter')
        return iter(list(self.d))

    def __getitem__(self, k):
        tick('getitem')
        return self.d[k]


def an_iter(rng, items):
    k = rng.randrange(5)
    f = [FIter, FIter2, FSeq, FIter, list][k]
    return lambda: f(items)


# ------------------------------------------------------------------ observation
CHECKED = (P.CheckedPVector, P.CheckedPSet, P.CheckedPMap)


def leaf(x):
    if isinstance(x, FE):
        return ('FE', x.ident)
    if type(x) in (int, str, bool, float, bytes, type(None)):
        return (type(x).__name__, x)
    return ('obj', type(x).__name__, id(x))


def snap(v, fields=None):
    """Content of a value, recursively, without calling comparison code of the elements."""
    if isinstance(v, P.PClass):
        return (type(v).__name__, [(n, snap(getattr(v, n))) for n in FIELDS[type(v)] if hasattr(v, n)])
    if isinstance(v, P.PVector) or type(v).__name__ in ('PList', '_EmptyPList', 'list', 'tuple'):
        return (type(v).__name__, len(v), [snap(x) for x in v])
    if isinstance(v, P.PDeque):
        return ('PDeque', v.maxlen, len(v), [snap(x) for x in v])
    if isinstance(v, (P.PMap, dict)):
        return (type(v).__name__, len(v), sorted((repr(snap(k)), snap(x)) for k, x in v.items()), all(k in v for k in v))
    if isinstance(v, (P.PSet, set, frozenset)):
        return (type(v).__name__, len(v), sorted(repr(snap(k)) for k in v), all(k in v for k in v))
    if isinstance(v, P.PBag):
        return ('PBag', len(v), sorted(repr(snap(k)) for k in v))
    return leaf(v)


def full(v):
    return snap(v), attempt(hash, v)[0] == 'ok' and hash(v), v == v


def ks_for(rng, N, cap=24):
    if N <= cap:
        return list(range(1, N + 1))
    return sorted(set([1, 2, N - 1, N] + [rng.randrange(1, N + 1) for _ in range(cap)]))


def same_kind_from_iter(got, exc):
    # CPython itself (functools.reduce, unpacking) replaces a TypeError raised by __iter__ with its own TypeError
    return Fault.site == 'iter' and isinstance(exc, TypeError) and isinstance(got, TypeError)


def inject(ctx, rng, fam_name, name, thunk, live, desc=''):
    """One operation on persistent values: clean run, then the k-th callback raises."""
    before = [full(v) for v in live]
    clean, N = Fault.run(thunk)
    if clean[0] == 'exc':
        # an operation that fails by itself (KeyError etc.): still must leave everything alone
        ctx.counters['failing_ops'] += 1
        want = ('exc', exc_kind(clean[1]))
    else:
        want = ('ok', snap(clean[1]))
    check_live(ctx, live, before, fam_name, name, desc, 'without a fault')
    for k in ks_for(rng, N):
        exc = rng.choice(KINDS if name != 'get_in' else NOT_TYPE)()      # get_in turns TypeError into the default, by definition
        r, n = Fault.run(thunk, k, exc, rng.choice(LOOKUP)() if rng.random() < 0.5 else None)
        exc = Fault.raised
        ctx.counters['injected'] += 1
        ctx.counters['site.' + Fault.site] += 1
        if n < k:
            ctx.fail('the number of callbacks differs between runs', op=(fam_name, name, desc), first=N, now=n)
        if not (r[0] == 'exc' and (r[1] is exc or same_kind_from_iter(r[1], exc))):
            ctx.fail('%s.%s: exception of user code not propagated' % (fam_name, name), desc=desc, site=Fault.site, raised=type(exc).__name__, k=k, of=N, got=r)
        check_live(ctx, live, before, fam_name, name, desc, 'after %s raised in callback %d of %d' % (Fault.site, k, N))
        if rng.random() < 0.25:
            r, n = Fault.run(thunk)
            got = ('exc', exc_kind(r[1])) if r[0] == 'exc' else ('ok', snap(r[1]))
            ctx.check_that(got == want, '%s.%s: a repetition after a failure gives a different result' % (fam_name, name), desc=desc, k=k, got=got, want=want)
            ctx.counters['repetitions'] += 1
    ctx.note('%s.%s' % (fam_name, name), N, desc)
    ctx.seen('operations', fam_name + '.' + name)


def hash_again(ctx, rng, fam_name, make):
    """A failed hash() is not remembered as the hash."""
    want, N = Fault.run(lambda: hash(make()))
    if want[0] == 'exc':
        return
    for _ in range(3):
        v = make()
        r, N = Fault.run(lambda: hash(v))
        if not N:
            return
        v, exc, k = make(), rng.choice(KINDS)(), rng.randrange(1, N + 1)
        r, n = Fault.run(lambda: hash(v), k, exc)
        ctx.check_that(r[0] == 'exc' and r[1] is exc, fam_name + '.hash: exception of user code not propagated', got=r)
        ctx.check_that(hash(v) == want[1] == hash(v), fam_name + ': hash differs after a failed hash()', got=hash(v), want=want[1])
        ctx.counters['injected'] += 1


def check_live(ctx, live, before, fam_name, name, desc, when):
    for v, b in zip(live, before):
        now = attempt(full, v)
        ctx.counters['rechecks'] += 1
        ctx.check_that(now == ('ok', b), '%s.%s: a value changed %s' % (fam_name, name, when), desc=desc, before=b, after=now)


def inject_evolver(ctx, rng, fam_name, value, script, extra, obs):
    """An evolver update fails in its k-th callback; the evolver must answer as if it had not been tried."""
    value_before = full(value)
    # number of callbacks of each step, on a clean run
    pos = rng.randrange(len(script))
    name, f, m, model0 = script[pos] + (None,)

    def fresh():
        e, mod = value.evolver(), obs.model(value)
        for _, g, h in script[:pos]:
            a, b = attempt(g, e), attempt(h, mod)
            ctx.check_that(a[0] == b[0], fam_name + ' evolver disagrees with the model', got=a, want=b)
        return e, mod
    e, mod = fresh()
    clean, N = Fault.run(lambda: f(e))
    for k in ks_for(rng, N, 12):
        e, mod = fresh()
        if rng.random() < 0.5:
            p0 = e.persistent()
            p0_before = full(p0)
        else:
            p0 = None
        exc = rng.choice(KINDS)()
        r, n = Fault.run(lambda: f(e), k, exc, rng.choice(LOOKUP)() if rng.random() < 0.5 else None)
        exc = Fault.raised
        ctx.counters['injected'] += 1
        ctx.counters['site.' + Fault.site] += 1
        if n < k:
            continue                  # (persistent() in between may save callbacks)
        if not (r[0] == 'exc' and r[1] is exc):
            ctx.fail('%s evolver.%s: exception of user code not propagated' % (fam_name, name), site=Fault.site, raised=type(exc).__name__, k=k, of=N, got=r)
        obs.reads(ctx, e, mod, 'after a failed %s (%s raised, callback %d of %d)' % (name, Fault.site, k, N))
        if rng.random() < 0.5:
            r, n = Fault.run(lambda: f(e))
            q = attempt(m, mod)
            ctx.check_that(r[0] == q[0], '%s evolver.%s: repetition after a failure differs' % (fam_name, name), got=r, want=q)
            obs.reads(ctx, e, mod, 'after repeating a failed %s' % name)
        for nm, g, h in extra:
            a, b = attempt(g, e), attempt(h, mod)
            ctx.check_that(a[0] == b[0], '%s evolver: %s after a failed %s differs' % (fam_name, nm, name), got=a, want=b, site=Fault.site, k=k)
        if rng.random() < 0.7:
            obs.reads(ctx, e, mod, 'after a failed %s and %d more updates' % (name, len(extra)))
        obs.persistent(ctx, e, mod, 'after a failed %s (%s raised, callback %d of %d)' % (name, Fault.site, k, N))
        ctx.check_that(full(value) == value_before, fam_name + ': the original changed', before=value_before, after=full(value))
        if p0 is not None:
            ctx.check_that(full(p0) == p0_before, fam_name + ': an earlier persistent() value changed', before=p0_before, after=full(p0))
    ctx.note('%s.evolver.%s' % (fam_name, name), N, pos, len(extra))
    ctx.seen('operations', '%s.evolver.%s' % (fam_name, name))


# ------------------------------------------------------------------ sequences
def fes(rng, n, dup=0.3):
    h = rng.choice([1, 1, 2, 1000])
    return [FE(rng.randrange(max(2, int(n * (1 - dup)) + 1)), rng.randrange(h)) if rng.random() < 0.85 else rng.choice([0, 'a', None]) for _ in range(n)]


def fes_only(rng, n):
    return [FE(rng.randrange(max(2, n)), rng.randrange(3)) for _ in range(n)]


SIZES = [0, 1, 2, 3, 5, 8, 20, 31, 32, 33, 40, 64, 65, 70]


def equal_copy(l):
    return [FE(x.ident, x.h) if isinstance(x, FE) else x for x in l]


def a_make(rng, kind):
    maxlen = rng.choice([None, None, 3, 100])
    if kind == 'vec':
        return P.pvector
    if kind == 'pyvec':
        from pyrsistent._pvector import python_pvector
        return python_pvector
    if kind == 'plist':
        return P.plist
    if kind == 'deque':
        return lambda x: P.pdeque(x, maxlen)
    return {'cvec': CVec}[kind]


class CVec(P.CheckedPVector):
    __type__ = (FE, int, str, type(None))
    __invariant__ = lambda x: (tick('invariant'), (True, ''))[1]


class CSet(P.CheckedPSet):
    __type__ = (FE, int, str, type(None))
    __invariant__ = lambda x: (tick('invariant'), (True, ''))[1]


class CMap(P.CheckedPMap):
    __key_type__ = (FE, int, str, type(None))
    __value_type__ = (FE, int, str, type(None))
    __invariant__ = lambda k, v: (tick('invariant'), (True, ''))[1]


def sequence(ctx, rng, kind):
    big = kind in ('vec', 'pyvec') and rng.random() < 0.04
    l = (fes if rng.random() < 0.7 else fes_only)(rng, rng.choice([1023, 1024, 1040, 1055, 1056, 1057, 2079]) if big else rng.choice(SIZES))
    make = a_make(rng, kind)
    v = make(l)
    l = list(v)
    ol = equal_copy(l)
    if ol and rng.random() < 0.7:
        i = rng.randrange(len(ol))
        ol[i] = FE(rng.randrange(50), 0)
    o = make(ol)
    live = [v, o]
    n = len(l)
    x = copy.copy(rng.choice(l)) if l and rng.random() < 0.8 else FE(99)
    xs = fes(rng, rng.choice([0, 1, 2, 31, 33]))
    it = an_iter(rng, xs)
    i = rng.randrange(n) if n else 0
    T = [('hash', lambda: hash(make(l)) and 0), ('eq', lambda: v == o), ('ne', lambda: v != o), ('in', lambda: x in v), ('count', lambda: v.count(x)),
         ('index', lambda: v.index(x)), ('remove', lambda: v.remove(x)), ('construct', lambda: make(it())), ('repr', lambda: repr(v)),
         ('copy', lambda: copy.copy(v)), ('eq-made', lambda: make(l) == make(ol)), ('deepcopy', lambda: copy.deepcopy(v)),
         ('pickle', lambda: pickle.loads(pickle.dumps(v, 2)))]
    if all(isinstance(y, FE) for y in l + ol):
        T += [('lt', lambda: v < o), ('gt', lambda: v > o), ('lt', lambda: o < v)]
        if kind in ('vec', 'pyvec', 'cvec'):
            T += [('le', lambda: v <= o), ('ge', lambda: v >= o), ('sorted', lambda: sorted(v))]
    if kind in ('vec', 'pyvec', 'cvec'):
        T += [('extend', lambda: v.extend(it())), ('add', lambda: v + it() if isinstance(it(), list) else v.extend(it())), ('mset', lambda: v.mset(*it())),
              ('index2', lambda: v.index(x, i, n)), ('transform', lambda: v.transform([pred], command)), ('transform', lambda: v.transform([i], command)),
              ('transform2', lambda: v.transform([pred2], command, [i], command)), ('eq list', lambda: v == ol), ('create', lambda: type(v).create(it()) if kind == 'cvec' else 0),
              ('serialize', lambda: v.serialize(None) if kind == 'cvec' else 0)]
    if kind == 'plist':
        T += [('mcons', lambda: v.mcons(it()))]
    if kind == 'deque':
        T += [('extend', lambda: v.extend(it())), ('extendleft', lambda: v.extendleft(it()))]
    for name, thunk in rng.sample(T, min(len(T), 8)):
        inject(ctx, rng, kind, name, thunk, live, (n, leaf(x)))
    hash_again(ctx, rng, kind, lambda: make(l))
    if kind in ('vec', 'pyvec', 'cvec'):
        for _ in range(2):
            script = [vec_step(rng, kind, n) for _ in range(rng.randrange(1, 5))]
            if not any(s[3] for s in script):
                script.append(vec_step(rng, kind, n, force=True))
            script = [s[:3] for s in script[:max(j for j, s in enumerate(script) if s[3]) + 1]]
            inject_evolver(ctx, rng, kind, v, script, [vec_step(rng, kind, n)[:3] for _ in range(rng.randrange(0, 5))], SeqObs)


def pred(k):
    tick('pred')
    return True


def pred2(k, v):
    tick('pred')
    return isinstance(v, FE)


def command(x):
    tick('command')
    return FE(7)


def vec_step(rng, kind, n, force=False):
    k = 'extend' if force else rng.choice(['set', 'append', 'extend', 'extend', 'del'] + (['append!'] if kind == 'cvec' else []))
    if k == 'extend':
        xs = fes(rng, rng.choice([0, 1, 3, 31, 32, 33]))
        it = an_iter(rng, xs)
        return k, lambda e: e.extend(it()), lambda m: m.extend(xs), True
    x = FE(rng.randrange(50))
    if k.startswith('append'):
        return 'append', lambda e: e.append(x), lambda m: m.append(x), kind == 'cvec'
    i = rng.randrange(-n, n) if n else 0
    if k == 'set':
        def ms(m):
            m[:] = ops.vec_set(m, i, x)
        return k, lambda e: e.set(i, x), ms, kind == 'cvec'

    def md(m):
        del m[i]
    return k, lambda e: e.delete(i), md, False


class SeqObs:
    @staticmethod
    def model(v):
        return list(v)

    @staticmethod
    def reads(ctx, e, m, when):
        ctx.counters['rechecks'] += 1
        ctx.check_that(len(e) == len(m), 'evolver length wrong ' + when, got=len(e), want=len(m))
        for i in range(len(m)):
            ctx.check_that(e[i] is m[i], 'evolver read wrong ' + when, index=i)

    @staticmethod
    def persistent(ctx, e, m, when):
        p = e.persistent()
        ctx.check_that(len(p) == len(m) and same_seq(list(p), m) and all(p[i] is m[i] for i in range(-len(m), len(m))), 'persistent() wrong ' + when, got=list(p), want=m)


# ------------------------------------------------------------------ keyed
def keys_for(rng):
    n = rng.choice([1, 2, 3, 5, 8, 9, 16, 17, 20, 33])
    h = rng.choice([1, 2, 3, 8, 1000])
    ks = []
    for i in range(n):
        ks.append(FE(i, rng.randrange(h) * rng.choice([1, 8, 64])) if rng.random() < 0.9 else 'k%d' % i)
    if rng.random() < 0.4:
        ks.append(FE(n, hash('zattr')))
    return ks


def twin(k):
    return FE(k.ident, k.h) if isinstance(k, FE) else k


class Quiet:
    """Universe-driven generators of the model checks compare keys while generating: faults are off then."""


def keyed(ctx, rng, kind):
    uni = keys_for(rng)
    sub = [k for k in uni if rng.random() < 0.6]
    d = {k: rng.choice([FE(3), 1, None]) for k in sub}
    ob = {twin(k): rng.choice([FE(3), 1]) for k in uni if rng.random() < 0.6}
    if rng.random() < 0.3:
        ob = {twin(k): v if not isinstance(v, FE) else FE(v.ident) for k, v in d.items()}
    ps = rng.choice([0, 0, 1, 5])
    a = twin(rng.choice(uni))
    b = rng.choice([FE(4), 2])
    merge = lambda x, y: (tick('merge'), y)[1]
    if kind in ('map', 'cmap'):
        make = (lambda x=(): P.pmap(x, pre_size=ps)) if kind == 'map' else CMap
        v, o = make(d), make(ob)
        T = [('set', lambda: v.set(a, b)), ('get', lambda: v.get(a)), ('getitem', lambda: v[a]), ('in', lambda: a in v), ('remove', lambda: v.remove(a)),
             ('discard', lambda: v.discard(a)), ('update', lambda: v.update(ob)), ('update2', lambda: v.update(o, FMap(ob) if kind == 'map' else ob)), ('update_with', lambda: v.update_with(merge, ob, d)),
             ('or', lambda: v | o), ('add', lambda: v + o), ('construct', lambda: make(ob)), ('eq', lambda: v == o), ('ne', lambda: v != o), ('eq dict', lambda: v == ob),
             ('hash', lambda: hash(make(d)) and 0), ('hash2', lambda: hash(v) and 0), ('repr', lambda: repr(v)), ('items in', lambda: (a, b) in v.items()), ('values in', lambda: b in v.values()),
             ('keys in', lambda: a in v.keys()), ('keys add', lambda: v.keys().add(a)), ('transform', lambda: v.transform([a], command)), ('transform pred', lambda: v.transform([pred], command)),
             ('transform pred2', lambda: v.transform([pred2], command)), ('transform discard', lambda: v.transform([pred2], P.discard)), ('pickle', lambda: pickle.loads(pickle.dumps(v, 2))),
             ('get_in', lambda: P.get_in([a], v)), ('keys', lambda: v.keys()), ('dict', lambda: dict(v)), ('attribute', lambda: v.zattr), ('get attribute', lambda: getattr(v, 'zattr', 5))]
        if kind == 'map':
            T += [('thaw', lambda: P.thaw(v)), ('freeze', lambda: P.freeze(ob)), ('pmap(mapping)', lambda: P.pmap(FMap(ob))), ('update_with2', lambda: v.update_with(merge, FMap(ob)))]
        else:
            T += [('create', lambda: CMap.create(ob)), ('serialize', lambda: v.serialize())]
        O = MapObs
        step = lambda: map_step(rng, uni)
    elif kind in ('set', 'cset'):
        make = (lambda x=(): P.pset(x, pre_size=rng.choice([8]))) if kind == 'set' else CSet
        v, o = make(sub), make(list(ob))
        xs = list(ob)
        it = an_iter(rng, xs)
        T = [('add', lambda: v.add(a)), ('in', lambda: a in v), ('remove', lambda: v.remove(a)), ('discard', lambda: v.discard(a)), ('update', lambda: v.update(it())), ('construct', lambda: make(it())),
             ('eq', lambda: v == o), ('ne', lambda: v != o), ('le', lambda: v <= o), ('lt', lambda: v < o), ('ge', lambda: v >= o), ('gt', lambda: v > o), ('hash', lambda: hash(make(sub)) and 0), ('hash2', lambda: hash(v) and 0),
             ('and', lambda: snap(v & o)), ('or', lambda: snap(v | o)), ('sub', lambda: snap(v - o)), ('xor', lambda: snap(v ^ o)), ('isdisjoint', lambda: v.isdisjoint(o)),
             ('union', lambda: snap(v.union(it()))), ('intersection', lambda: snap(v.intersection(it()))), ('difference', lambda: snap(v.difference(it()))), ('symdiff', lambda: snap(v.symmetric_difference(it()))),
             ('repr', lambda: len(repr(v))), ('pickle', lambda: pickle.loads(pickle.dumps(v, 2))), ('issubset', lambda: v.issubset(o))]
        if kind == 'set':
            T += [('thaw', lambda: snap(P.thaw(v))), ('freeze', lambda: P.freeze(set(xs)))]
        else:
            T += [('create', lambda: CSet.create(it())), ('serialize', lambda: snap(v.serialize()))]
        O = SetObs
        step = lambda: set_step(rng, uni)
    else:
        xs = [k for k in ob for _ in range(rng.choice([1, 1, 2]))]
        it = an_iter(rng, xs)
        v, o = P.pbag(sub + sub[:3]), P.pbag(xs)
        T = [('add', lambda: v.add(a)), ('update', lambda: v.update(it())), ('remove', lambda: v.remove(a)), ('count', lambda: v.count(a)), ('in', lambda: a in v), ('plus', lambda: v + o), ('minus', lambda: v - o),
             ('or', lambda: v | o), ('and', lambda: v & o), ('eq', lambda: v == o), ('ne', lambda: v != o), ('hash', lambda: hash(v) and 0), ('construct', lambda: P.pbag(it())), ('repr', lambda: len(repr(v)))]
        O = None
    for name, thunk in rng.sample(T, min(len(T), 8)):
        inject(ctx, rng, kind, name, thunk, [v, o], (len(v), len(o), leaf(a)))
    hash_again(ctx, rng, kind, lambda: make(d if kind in ('map', 'cmap') else sub) if kind != 'bag' else P.pbag(sub))
    if O is not None:
        for _ in range(3):
            if kind in ('map', 'cmap') and rng.random() < 0.4:
                # up to the growth of the bucket table
                v = make({k: 1 for k in uni[:rng.randrange(len(uni) + 1)]})
                grow = [FE(100 + i, rng.randrange(64)) for i in range(rng.choice([1, 8, 16, 30]))]
                script = [map_step(rng, [g], 'set') for g in grow]
            else:
                script = [step() for _ in range(rng.choice([1, 2, 5, 12]))]
            inject_evolver(ctx, rng, kind, v, script, [step() for _ in range(rng.randrange(0, 6))], O)


def map_step(rng, uni, k=None):
    k = k or rng.choice(['set', 'set', 'set', 'remove', 'get', 'in'])
    a, b = twin(rng.choice(uni)), rng.choice([FE(5), 3, 'v'])
    if k == 'set':
        def m(d):
            d[a] = b
        return k, lambda e: e.set(a, b), m
    if k == 'remove':
        def m2(d):
            del d[a]
        return k, lambda e: e.remove(a), m2
    if k == 'get':
        return k, lambda e: e[a], lambda d: d[a]
    return k, lambda e: a in e, lambda d: a in d


class MapObs:
    @staticmethod
    def model(v):
        return dict(v.items())

    @staticmethod
    def reads(ctx, e, m, when):
        ctx.counters['rechecks'] += 1
        ctx.check_that(len(e) == len(m), 'evolver length wrong ' + when, got=len(e), want=len(m))
        for k in m:
            r = attempt(lambda: e[k])
            ctx.check_that(r[0] == 'ok' and r[1] is m[k] and k in e, 'evolver read wrong ' + when, key=k, got=r)
        ctx.check_that(FE(12345, 3) not in e, 'evolver finds an absent key ' + when)

    @staticmethod
    def persistent(ctx, e, m, when):
        p = e.persistent()
        items = list(p.items())
        ctx.check_that(len(p) == len(m) == len(items) and {id(k) for k, _ in items} == {id(k) for k in m} and all(m[k] is v for k, v in items) and all(k in p and p[k] is m[k] for k in m),
                       'persistent() wrong ' + when, got=items, want=m, length=len(p))


def set_step(rng, uni):
    a = twin(rng.choice(uni))
    if rng.random() < 0.7:
        return 'add', lambda e: e.add(a), lambda m: m.setdefault(a, a)

    def md(m):
        del m[a]
    return 'remove', lambda e: e.remove(a), md


class SetObs:
    @staticmethod
    def model(v):
        return {x: x for x in v}

    @staticmethod
    def reads(ctx, e, m, when):
        ctx.counters['rechecks'] += 1
        ctx.check_that(len(e) == len(m), 'evolver length wrong ' + when, got=len(e), want=len(m))

    @staticmethod
    def persistent(ctx, e, m, when):
        p = e.persistent()
        items = list(p)
        ctx.check_that(len(p) == len(m) == len(items) and {id(k) for k in items} == {id(k) for k in m.values()} and all(k in p for k in m), 'persistent() wrong ' + when, got=items, want=list(m))


# ------------------------------------------------------------------ records and classes
def fac(x):
    tick('factory')
    return x


def inv(x):
    tick('invariant')
    return True, ''


def initial():
    tick('initial')
    return FE(1)


def ser(fmt, x):
    tick('serializer')
    return x


def ginv(r):
    tick('global invariant')
    return True, ''


class Rec(P.PRecord):
    a = P.field(factory=fac, invariant=inv)
    b = P.field(type=(FE, int), initial=initial, serializer=ser)
    c = P.field(invariant=inv, serializer=ser)
    d = P.pvector_field((FE, int), invariant=inv)
    __invariant__ = ginv


class Rec2(Rec):
    e = P.field(type=Rec)
    f = P.pmap_field((FE, int), Rec, invariant=inv)


class Cls(P.PClass):
    a = P.field(factory=fac, invariant=inv)
    b = P.field(type=(FE, int), initial=initial, serializer=ser)
    c = P.field(invariant=inv, serializer=ser)
    d = P.pset_field((FE, int), invariant=inv)
    __invariant__ = ginv


class Cls2(Cls):
    e = P.field(type=(Cls, Rec))
    f = P.pvector_field(Cls, optional=True)


FIELDS = {Cls: 'abcd', Cls2: 'abcdef'}
RFIELDS = {Rec: 'abcd', Rec2: 'abcdef', Cls: 'abcd', Cls2: 'abcdef'}


def inst(rng, cls, deep=True):
    kw = {}
    if rng.random() < 0.7:
        kw['a'] = rng.choice([FE(2), 1])
    if rng.random() < 0.5:
        kw['b'] = FE(3)
    if rng.random() < 0.6:
        kw['c'] = FE(4)
    if rng.random() < 0.6:
        kw['d'] = [FE(5), 6, FE(8, 1)]
    if cls in (Rec2, Cls2):
        base = Rec if cls is Rec2 or rng.random() < 0.3 else Cls
        if rng.random() < 0.7:
            kw['e'] = inst(rng, base)[0]
        if rng.random() < 0.7:
            kw['f'] = {FE(1): inst(rng, Rec)[0]} if cls is Rec2 else [inst(rng, Cls)[0] for _ in range(2)]
    return cls(**kw), kw


def records(ctx, rng):
    cls = rng.choice([Rec, Rec2, Cls, Cls2])
    (v, kw), (o, okw) = inst(rng, cls), inst(rng, cls)
    n = rng.choice('abcd')
    x = {'a': FE(9), 'b': FE(10), 'c': FE(11), 'd': [FE(12), FE(13, 1)]}[n]
    it = an_iter(rng, [FE(12), 3])
    plain = dict(kw)
    if rng.random() < 0.5:
        plain = v.serialize()
    isrec = isinstance(v, P.PRecord)
    T = [('construct', lambda: cls(**kw)), ('create', lambda: cls.create(plain)), ('set', lambda: v.set(n, x)), ('set kw', lambda: v.set(**{n: x, 'a': FE(14)})), ('eq', lambda: v == o),
         ('ne', lambda: v != o), ('repr', lambda: len(repr(v))), ('serialize', lambda: v.serialize('fmt')), ('pickle', lambda: pickle.loads(pickle.dumps(v, 2))), ('transform', lambda: v.transform(['a'], command)),
         ('transform pred', lambda: v.transform([lambda k: (tick('pred'), k == 'c')[1]], command)), ('set iter', lambda: v.set('d', it())), ('remove', lambda: v.remove('a')), ('copy', lambda: copy.copy(v)),
         ('hash', lambda: hash(cls(**kw)) and 0)]
    if isrec:
        T += [('update', lambda: v.update({n: x, 'c': FE(15)})), ('discard', lambda: v.discard('a'))]
    for name, thunk in rng.sample(T, 8):
        inject(ctx, rng, cls.__name__, name, thunk, [v, o], (sorted(kw), n))
    O = RecObs if isrec else ClsObs
    for _ in range(2):
        script = [rec_step(rng, isrec) for _ in range(rng.randrange(1, 4))]
        inject_evolver(ctx, rng, cls.__name__, v, script, [rec_step(rng, isrec) for _ in range(rng.randrange(0, 3))], O)
    # persistent() itself fails in user code, then is repeated
    e, mod = v.evolver(), O.model(v)
    for _, f, m in [rec_step(rng, isrec, 'set') for _ in range(2)]:
        f(e), m(mod)
    r, N = Fault.run(lambda: e.persistent())
    for k in range(1, N + 1):
        e, mod2 = v.evolver(), O.model(v)
        for _, f, m in [rec_step(random.Random(7), isrec, 'set')]:
            f(e), m(mod2)
        exc = rng.choice(KINDS)()
        r, n2 = Fault.run(lambda: e.persistent(), k, exc, rng.choice(LOOKUP)() if rng.random() < 0.5 else None)
        exc = Fault.raised
        if n2 >= k:
            ctx.counters['injected'] += 1
            ctx.check_that(r[0] == 'exc' and r[1] is exc, 'exception in persistent() not propagated', got=r, site=Fault.site)
            O.persistent(ctx, e, mod2, 'after persistent() failed in %s' % Fault.site)


class Need(P.PRecord):
    x = P.field(mandatory=True)
    y = P.field(mandatory=True, type=(int, FE))
    z = P.field()


class NeedC(P.PClass):
    x = P.field(mandatory=True)
    y = P.field(mandatory=True, type=(int, FE))
    z = P.field()


def supply(ctx, rng):
    """persistent() of an evolver without a mandatory field fails, as often as it is called, and only as long as the field is missing."""
    cls = rng.choice([Need, NeedC])
    have = {'x': FE(1), 'y': 2, 'z': FE(3)}
    v = cls(**have)
    e, have = v.evolver(), dict(have)
    trail = []
    for _ in range(rng.randrange(3, 14)):
        n = rng.choice('xxyyz')
        k = rng.choice(['remove', 'set', 'persistent', 'persistent'])
        trail.append((k, n))
        if k == 'remove':
            if n in have:
                e.remove(n)
                del have[n]
            else:
                r = attempt(e.remove, n)
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], (KeyError, AttributeError)), 'removing an absent field accepted', trail=trail)
        elif k == 'set':
            have[n] = rng.choice([FE(5), 6])
            e[n] = have[n]
        else:
            r = attempt(e.persistent)
            miss = {n for n in 'xy' if n not in have}
            ctx.counters['failing_ops'] += bool(miss)
            if miss:
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], P.InvariantException) and sorted(r[1].missing_fields) == sorted('%s.%s' % (cls.__name__, n) for n in miss),
                               'persistent() with missing fields: wrong failure', trail=trail, got=r, missing=miss)
            else:
                ctx.check_that(r[0] == 'ok' and type(r[1]) is cls and {n: getattr(r[1], n) for n in 'xyz' if hasattr(r[1], n)} == have, 'persistent() wrong after earlier failures', trail=trail, got=r, want=have)
        ctx.check_that(v.x.ident == 1 and v.y == 2 and v.z.ident == 3, 'the original changed', trail=trail)
    ctx.note('supply', cls.__name__, trail)


def rec_step(rng, isrec, k=None):
    k = k or rng.choice(['set', 'set', 'set', 'remove'])
    n = rng.choice('abc' if k == 'set' else 'ac')
    x = FE(rng.randrange(40))
    if k == 'set':
        def m(d):
            d[n] = x
        return k, lambda e: e.set(n, x), m

    def md(d):
        del d[n]
    return k, (lambda e: e.remove(n)), md


class RecObs(MapObs):
    @staticmethod
    def reads(ctx, e, m, when):
        MapObs.reads(ctx, e, m, when)


class ClsObs:
    @staticmethod
    def model(v):
        return {n: getattr(v, n) for n in FIELDS[type(v)] if hasattr(v, n)}

    @staticmethod
    def reads(ctx, e, m, when):
        ctx.counters['rechecks'] += 1
        for n in m:
            ctx.check_that(getattr(e, n) is m[n], 'evolver read wrong ' + when, field=n, got=getattr(e, n), want=m[n])

    @staticmethod
    def persistent(ctx, e, m, when):
        p = e.persistent()
        got = ClsObs.model(p)
        got.pop('b', None)
        ctx.check_that(set(got) == set(m) - {'b'} and all(got[k] is m[k] for k in got), 'persistent() wrong ' + when, got=got, want=m)


# ------------------------------------------------------------------ nested transforms, freeze, thaw, mutant
def nested(ctx, rng):
    def tree(d):
        r = rng.random()
        if d == 0 or r < 0.2:
            return rng.choice([FE(rng.randrange(9)), 1, 'x'])
        if r < 0.6:
            return {rng.choice([FE(i, i % 2), 'k%d' % i]): tree(d - 1) for i in range(rng.randrange(1, 4))}
        return [tree(d - 1) for _ in range(rng.randrange(1, 4))]
    plain = {'r': tree(3), 's': tree(2), FE(77): tree(1)}
    v = P.freeze(plain)
    path = ['r'] + [rng.choice([pred, pred2]) for _ in range(rng.randrange(1, 3))] if rng.random() < 0.6 else [pred, pred]

    def wrap(x):
        tick('command')
        return P.v(x)

    @P.mutant
    def mut(a, b=None):
        tick('mutant')
        a['new'] = b
        return a
    T = [('transform', lambda: v.transform(path, wrap)), ('transform*2', lambda: v.transform(path, wrap, ['s'], wrap)), ('transform discard', lambda: v.transform(path, P.discard)), ('thaw', lambda: P.thaw(v)),
         ('freeze', lambda: P.freeze(plain)), ('get_in', lambda: P.get_in(['r', FE(1, 1)], v)), ('mutant', lambda: mut(dict(a=1), b=[FE(1)])), ('eq', lambda: v == P.freeze(plain)), ('hash', lambda: hash(P.freeze(plain)) and 0),
         ('missing', lambda: v.transform(['q', FE(3), 'z'], wrap))]
    for name, thunk in rng.sample(T, 5):
        inject(ctx, rng, 'nested', name, thunk, [v], '')


# ------------------------------------------------------------------ invalid arguments
def invalid(ctx, rng):
    """Operations rejected for their arguments leave everything alone."""
    v, m, s, b, l, d = P.pvector(range(40)), P.pmap({i: i for i in range(9)}), P.pset(range(9)), P.pbag([1, 1, 2]), P.plist([1, 2, 3]), P.pdeque([1, 2, 3], 5)
    bad = rng.choice([[1], {}, set(), P.pvector([[1]])])
    live = [v, m, s, b, l, d]
    before = [full(x) for x in live]
    T = [lambda: v.set('x', 1), lambda: v.set(100, 1), lambda: v.mset(0, 1, 100, 2), lambda: v.mset(1, 2, 3), lambda: v.delete(99), lambda: v.remove('x'), lambda: v.extend(5), lambda: v + 5, lambda: v['x'],
         lambda: m.set(bad, 1), lambda: m.remove('q'), lambda: m.update(5), lambda: m.update({1: 2}, 5), lambda: m[bad], lambda: m.remove(bad), lambda: m.transform(['x', 'y', 'z'], 1, [1, 2], 3),
         lambda: s.add(bad), lambda: s.update([1, 2, bad]), lambda: s.remove(bad), lambda: s.remove(99), lambda: s.update(5), lambda: b.add(bad), lambda: b.update([3, bad]), lambda: b.remove(7),
         lambda: l.remove(7), lambda: l[9], lambda: l.mcons(4), lambda: d.remove(9), lambda: d[7], lambda: d.extend(3), lambda: d.extendleft(3), lambda: P.pdeque([1], maxlen=-1), lambda: P.pdeque([1], maxlen='x'),
         lambda: v.append(), lambda: v.transform([100], 1), lambda: m.update_with(None, {1: 3})]
    for t in T:
        r = attempt(t)
        ctx.counters['failing_ops'] += r[0] == 'exc'
        for x, q in zip(live, before):
            ctx.counters['rechecks'] += 1
            ctx.check_that(full(x) == q, 'a value changed by a rejected operation', value=x)
    # on evolvers
    e, em, es = v.evolver(), m.evolver(), s.evolver()
    lv, lm, ls = list(v), dict(m), set(s)
    x = rng.randrange(1000)
    e.append(x), lv.append(x)
    em.set(x, x), lm.__setitem__(x, x)
    es.add(x), ls.add(x)
    TE = [lambda: e.set(100, 1), lambda: e.set('x', 1), lambda: e.extend(5), lambda: e.delete(77), lambda: e.extend([1, 2].append), lambda: e[77], lambda: e.__setitem__(99, 1),
          lambda: em.set(bad, 1), lambda: em.remove('q'), lambda: em.remove(bad), lambda: em['q'], lambda: em[bad], lambda: es.add(bad), lambda: es.remove(bad), lambda: es.remove('q')]
    rng.shuffle(TE)
    for t in TE:
        r = attempt(t)
        ctx.counters['failing_ops'] += 1
        ctx.check_that(r[0] == 'exc', 'invalid evolver operation accepted', got=r)
        ctx.check_that(len(e) == len(lv) and [e[i] for i in range(len(lv))] == lv and len(em) == len(lm) and len(es) == len(ls), 'evolver changed by a rejected operation')
        if rng.random() < 0.2:
            ctx.check_that(e.persistent() == P.pvector(lv) and em.persistent() == P.pmap(lm) and es.persistent() == P.pset(ls), 'persistent() wrong after a rejected operation')
    ctx.check_that(list(e.persistent()) == lv and em.persistent() == lm and es.persistent() == ls, 'persistent() wrong after rejected operations')
    ctx.note('invalid', len(T) + len(TE), type(bad).__name__, x)


def run(ctx):
    for i, rng in ctx.cases('invalid', 10):
        invalid(ctx, rng)
    for kind in ('vec', 'pyvec', 'plist', 'deque', 'cvec'):
        for i, rng in ctx.cases(kind, 45):
            sequence(ctx, rng, kind)
    for kind in ('map', 'set', 'bag', 'cmap', 'cset'):
        for i, rng in ctx.cases(kind, 45):
            keyed(ctx, rng, kind)
    for i, rng in ctx.cases('records', 60):
        records(ctx, rng)
    for i, rng in ctx.cases('supply', 60):
        supply(ctx, rng)
    for i, rng in ctx.cases('nested', 60):
        nested(ctx, rng)
