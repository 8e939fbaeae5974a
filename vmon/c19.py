"""C19: conservation of references and of memory.

Elements register themselves when they are created; when everything built from them is gone each must have exactly the reference count of a
fresh object (more: a leak; fewer: dropped once too often).  Single operations are repeated while the allocators are watched.  Elements held
by nothing but a persistent value must stay alive as long as it does."""
import copy, ctypes, gc, operator, os, pickle, sys, weakref
import pyrsistent as P
from .base import *
from . import base, fam, ops, c09, c17
from .cmodel import routes
try:
    import pvectorc
except ImportError:
    pvectorc = None
c03 = None
if 'pvectorc' in sys.modules:
    from . import c03

REG = []
ON = [False]


def register(cls):
    orig = cls.__init__

    def init(self, *a):
        orig(self, *a)
        if ON[0]:
            REG.append(self)
    cls.__init__ = init


for _c in (base.E, base.K, c17.FE):
    register(_c)


class Slim:
    __slots__ = ()


def fresh_count():
    x = [Slim()]
    for o in x:
        return sys.getrefcount(o)


FRESH = fresh_count()           # references seen for an object held by one list while looping over it
SINGLES = {'pvector()': P.pvector(), 'pmap()': P.pmap(), 'pset()': P.pset(), 'plist()': P.plist(), 'pdeque()': P.pdeque(), 'b()': P.b()}


def singles():
    return {k: sys.getrefcount(v) for k, v in SINGLES.items()}


def conserve(ctx, what, f, *a):
    """Run f; afterwards every element it created is referenced only by our register."""
    gc.collect()
    REG.clear()
    s0 = singles()
    ON[0] = True
    try:
        f(*a)
    except Violation:
        ctx.counters['functional_mismatches'] += 1      # the business of other properties
    except RecursionError:
        ctx.counters['recursion'] += 1
    finally:
        ON[0] = False
    c17.Fault.clear()
    gc.collect()
    s1 = singles()
    bad = []
    for o in REG:
        n = sys.getrefcount(o)
        if n != FRESH:
            bad.append((o, n - FRESH))
    ctx.counters['tracked'] += len(REG)
    if bad:
        o, d = bad[0]
        holders = [brief(type(h)) + ' ' + brief(h, 120) for h in gc.get_referrers(o) if h is not REG and h is not bad and not any(h is t for t in bad)][:4]
        k = len(bad)
        bad = None
        ctx.fail('%s: an element has %+d references after everything using it is gone' % (what, d), elements_affected=k, tracked=len(REG), holders=holders)
    for k in s0:
        # cached empties may be created or replaced, but repeated use must not add references: checked by repetition below
        if s1[k] < s0[k]:
            ctx.fail('%s: the shared empty %s lost references' % (what, k), before=s0[k], after=s1[k])
    REG.clear()


# ------------------------------------------------------------------ growth under repetition
class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


def c_bytes():
    mi = LIBC.mallinfo2()
    return mi.uordblks + mi.hblkhd


try:
    LIBC = ctypes.CDLL(None)
    LIBC.mallinfo2.restype = Mallinfo2
    c_bytes()
except Exception:
    LIBC = None


def grows(measure, unit, f, reps, rounds):
    """f repeated; True if the measure grows by at least a unit per repetition in every round."""
    d = []
    for _ in range(rounds):
        gc.collect()
        m0 = measure()
        for _ in range(reps):
            f()
        gc.collect()
        d.append(measure() - m0)
        if d[-1] < reps * unit * 0.9:
            return None
    return d


def steady(ctx, what, f, gc_too=False):
    """Repeating f must not keep adding blocks, bytes or references."""
    ctx.counters['repeated_ops'] += 1
    f(), f()
    for name, measure, unit, reps in MEASURES:
        if grows(measure, unit, f, reps, 1) and grows(measure, unit, f, reps * 2, 4) and grows(measure, unit, f, reps * 10, 8):     # fragmentation converges, a leak does not
            ctx.fail('%s: every repetition leaves memory behind' % what, measure=name, growth=grows(measure, unit, f, reps * 2, 2), repetitions=reps * 2)


MEASURES = []


def lasting():
    import types
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if name.split('.')[0] in ('pyrsistent', 'pvectorc', 'pyrsistent_version'):
            out[id(mod)] = mod
            for x in list(vars(mod).values()):
                if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, dict, list)):
                    out[id(x)] = x
    v = P.pvector()
    for x in (type(v), type(v.evolver()), type(iter(v)), type(P.pmap().evolver()), type(P.pset().evolver()), KeyError, IndexError, TypeError, ValueError):
        out[id(x)] = x
    return list(out.values())


LASTING = lasting()


def lasting_refs():
    g = sys.getrefcount
    return sum(map(g, LASTING))


def setup_measures(ctx):
    if os.environ.get('PYTHONMALLOC') == 'malloc':
        if LIBC is not None:
            MEASURES.append(('bytes in use (mallinfo2)', c_bytes, 16, 60))
    else:
        MEASURES.append(('allocated blocks', sys.getallocatedblocks, 1, 12))
    ctx.seen('measures', MEASURES[0][0] if MEASURES else 'none')
    MEASURES.append(('references to modules, functions and types', lasting_refs, 1, 12))
    for k, v in SINGLES.items():
        MEASURES.append(('references to ' + k, lambda v=v: sys.getrefcount(v), 1, 12)) if type(v).__name__ != 'PDeque' else None


def repeat_family(ctx, rng, F):
    uni = F.universe(rng, ctx)
    v, m, how = F.start(rng, ctx, P, uni)
    pool = [(v, m)]
    for _ in range(rng.choice([2, 6])):
        seed = rng.random()
        op = F.gen(random.Random(seed), ctx, P, m, uni, pool)

        def go(op=op):
            try:
                op.f(v)
            except Exception:
                pass

        def fresh():
            # generated anew each time: consumed iterators, fresh elements
            op = F.gen(random.Random(seed), ctx, P, m, uni, pool)
            try:
                op.f(v)
            except Exception:
                pass
        ctx.note('repeat.' + F.name + '.' + op.name, len(m), op.desc)
        steady(ctx, '%s.%s(%s)' % (F.name, op.name, brief(op.desc, 80)), go)
        if rng.random() < 0.5:
            steady(ctx, '%s.%s(%s) with fresh arguments' % (F.name, op.name, brief(op.desc, 80)), fresh)
        r = attempt(op.f, v)
        if op.kind == 'new' and r[0] == 'ok' and len(m) < 1500:
            q = attempt(op.m, m)
            if q[0] == 'ok':
                v, m = r[1], F.adopt(r[1], q[1]) if F.name in ('map', 'set') else q[1]
                if len(v) != len(m):
                    return
                pool.append((v, m))


def repeat_hostile(ctx, rng):
    n = rng.choice([0, 1, 5, 31, 32, 33, 64, 65, 300, 1057])
    v = P.pvector([E() for _ in range(n)])
    for _ in range(4):
        seed = rng.random()
        name, f = c03.hostile(random.Random(seed), ctx, n)
        name2, f2 = c03.hostile_ev(random.Random(seed), n)

        def go():
            try:
                f(v)
            except Exception:
                pass
        e = v.evolver()
        e.append(E())

        def goev():
            ev = v.evolver()
            try:
                ev.append(1)
                f2(ev)
            except Exception:
                pass
            ev.persistent()

        def goev2():
            # failing operations on one long-lived evolver
            try:
                f2(e) if name2 in FAILING else None
            except Exception:
                pass
        ctx.note('repeat.hostile', name, name2, n)
        steady(ctx, 'vector %s' % name, go)
        steady(ctx, 'evolver %s' % name2, goev)
        steady(ctx, 'kept evolver %s' % name2, goev2)


FAILING = ('set junk', 'get big', 'get junk', 'extend 5', 'append()', 'del junk')


class R1(P.PRecord):
    a = P.field()
    b = P.field(type=int, mandatory=True)
    c = P.field(invariant=lambda x: (x != 7, 'seven'), factory=lambda x: x)
    d = P.pvector_field(int)
    e = P.pmap_field(str, int)


class C1(P.PClass):
    a = P.field()
    b = P.field(type=int, mandatory=True)
    c = P.field(invariant=lambda x: (x != 7, 'seven'))
    d = P.pset_field(int)


class V1(P.CheckedPVector):
    __type__ = int
    __invariant__ = lambda x: (x >= 0, 'negative')


class M1(P.CheckedPMap):
    __key_type__ = str
    __value_type__ = R1


class S1(P.CheckedPSet):
    __type__ = int


def repeat_rest(ctx, rng):
    """Checked types, records, classes, transforms, freeze, pickling, views, iterators: valid and failing."""
    x = E()
    r, c = R1(b=1, a=x, d=[1, 2]), C1(b=1, a=x, d=[1])
    cv, cm, cs = V1(range(40)), M1({'k': r}), S1([1, 2, 3])
    m = P.freeze({'a': [1, {'b': [x, 2]}], 'c': {'d': x}})
    big = P.pvector(range(1100))
    bm = P.pmap({i + 1000: x for i in range(100)})
    it = iter(big)
    ev = big.evolver()
    mv, ms = bm.evolver(), cs.evolver()
    I = P.immutable('a, b', name='I') if rng.random() < 0.1 else None
    T = [('record', lambda: R1(b=2, a=x)), ('record missing', lambda: R1(a=x)), ('record bad type', lambda: R1(b='x')), ('record inv', lambda: R1(b=1, c=7)), ('record unknown', lambda: R1(b=1, z=2)),
         ('record set', lambda: r.set('a', x)), ('record set bad', lambda: r.set('b', x)), ('record set unknown', lambda: r.set('q', 1)), ('record remove', lambda: r.remove('a')), ('record remove mandatory', lambda: r.remove('b')),
         ('record evolver', lambda: r.evolver().set('a', 3).persistent()), ('record evolver bad', lambda: r.evolver().set('c', 7).persistent()), ('record create', lambda: R1.create({'b': 1, 'd': [1]})),
         ('record create extra', lambda: R1.create({'b': 1, 'zz': [1]}, ignore_extra=True)), ('record create bad', lambda: R1.create({'b': 1, 'd': ['x']})), ('record serialize', lambda: r.serialize()), ('record hash', lambda: hash(R1(b=5))),
         ('record eq', lambda: r == R1(b=1)), ('record repr', lambda: repr(r)), ('record pickle', lambda: pickle.loads(pickle.dumps(R1(b=1000)))), ('record transform', lambda: r.transform(['a'], 5)), ('record update', lambda: r.update({'a': 5})),
         ('class', lambda: C1(b=2, a=x)), ('class missing', lambda: C1(a=x)), ('class bad', lambda: C1(b='x')), ('class inv', lambda: C1(b=1, c=7)), ('class unknown', lambda: C1(b=1, z=1)), ('class set', lambda: c.set(a=4)), ('class set bad', lambda: c.set(b='x')),
         ('class setattr', lambda: setattr(c, 'a', 1)), ('class delattr', lambda: delattr(c, 'a')), ('class remove', lambda: c.remove('a')), ('class evolver', lambda: c.evolver().set('a', 1).persistent()), ('class evolver bad', lambda: c.evolver().set('b', 'x').persistent()),
         ('class create', lambda: C1.create({'b': 2, 'd': [1]})), ('class serialize', lambda: c.serialize()), ('class hash', lambda: hash(C1(b=1))), ('class eq', lambda: c == C1(b=1)), ('class pickle', lambda: pickle.loads(pickle.dumps(C1(b=1)))), ('class transform', lambda: c.transform(['a'], 1)),
         ('cvec', lambda: V1([1, 2])), ('cvec bad', lambda: V1(['x'])), ('cvec inv', lambda: V1([1, -1])), ('cvec append', lambda: cv.append(500)), ('cvec append bad', lambda: cv.append('x')), ('cvec extend bad', lambda: cv.extend([1, -5])), ('cvec set', lambda: cv.set(3, 800)),
         ('cvec mset bad', lambda: cv.mset(0, 1, 1, 'x')), ('cvec evolver', lambda: cv.evolver().append(4).persistent()), ('cvec evolver bad', lambda: cv.evolver().extend([4, -4]).persistent()), ('cvec create', lambda: V1.create([5])), ('cvec serialize', lambda: cv.serialize()), ('cvec slice', lambda: cv[2:30]),
         ('cmap', lambda: M1({'a': r})), ('cmap bad', lambda: M1({1: r})), ('cmap set', lambda: cm.set('b', r)), ('cmap set bad', lambda: cm.set('b', 1)), ('cmap update', lambda: cm.update({'z': r})), ('cmap create', lambda: M1.create({'q': {'b': 4}})), ('cmap create bad', lambda: M1.create({'q': {'b': 'x'}})),
         ('cmap serialize', lambda: cm.serialize()), ('cmap remove', lambda: cm.remove('k')), ('cmap evolver', lambda: cm.evolver().set('a', r).persistent()), ('cset', lambda: S1([1])), ('cset bad', lambda: S1(['x'])), ('cset add', lambda: cs.add(400)), ('cset add bad', lambda: cs.add('x')),
         ('cset evolver', lambda: cs.evolver().add(9).persistent()), ('cset op', lambda: cs | {4}), ('cset pickle', lambda: pickle.loads(pickle.dumps(cs))),
         ('transform', lambda: m.transform(['a', 1, 'b', 0], 5)), ('transform ny', lambda: m.transform([P.ny, P.ny], lambda y: y)), ('transform rex', lambda: m.transform([P.rex('a|c')], lambda y: 4)), ('transform discard', lambda: m.transform(['c', 'd'], P.discard)), ('transform fail', lambda: m.transform(['c', 'd', 'e'], 3)),
         ('transform raise', lambda: m.transform(['c'], lambda y: 1 // 0)), ('get_in', lambda: P.get_in(['a', 1, 'b', 9], m, 5)), ('get_in fail', lambda: P.get_in(['a', 9], m, no_default=True)), ('freeze', lambda: P.freeze({'a': [1000, {2000}, (3000, [x])]})), ('thaw', lambda: P.thaw(m)), ('inc', lambda: m.transform(['a', 0], P.inc)),
         ('iter', lambda: list(iter(big))), ('iter half', lambda: [y for _, y in zip(range(500), iter(big))]), ('iter drop', lambda: next(iter(big))), ('iter exhausted', lambda: next(iter(P.pvector()))), ('kept iter', lambda: next(it)), ('reversed', lambda: list(reversed(big))), ('weakref', lambda: weakref.ref(big.append(1))),
         ('evolver drop', lambda: big.evolver().append(1)), ('evolver set drop', lambda: big.evolver().set(3, x).set(600, x)), ('evolver many', lambda: big.evolver().extend(big).persistent()), ('kept evolver set', lambda: (ev.set(0, x), ev.set(0, 1), ev.persistent())), ('kept evolver append del', lambda: (ev.append(x), ev.delete(-1), ev.persistent())),
         ('kept map evolver', lambda: (mv.set('n', x), mv.persistent(), mv.remove('n'), mv.persistent())), ('kept set evolver', lambda: (ms.add(77), ms.persistent(), ms.remove(77), ms.persistent())),
         ('map pickle', lambda: pickle.loads(pickle.dumps(P.pmap({1: 1000})))), ('vector pickle', lambda: pickle.loads(pickle.dumps(big))), ('deepcopy', lambda: copy.deepcopy(P.pmap({1: [1000]}))), ('copy', lambda: copy.copy(big)), ('map views', lambda: (list(bm.items()), list(bm.values()), list(bm.keys()), repr(bm)[:3])),
         ('map iter drop', lambda: next(iter(bm))), ('map eq', lambda: bm == dict(bm)), ('map hash', lambda: hash(bm.set(1, 1))), ('map update_with', lambda: bm.update_with(operator.add, {1: 2}, {1: 3})), ('map update_with raise', lambda: bm.update_with(lambda a, b: 1 // 0, {1000: 2})), ('map getattr', lambda: m.a), ('map getattr fail', lambda: m.zzz),
         ('merge', lambda: bm + {5: 6}), ('to python', lambda: bm.thaw() if hasattr(bm, 'thaw') else 0), ('mutant', lambda: MUT({'a': [1]})), ('cmp', lambda: (big < big.append(1), big == big.set(0, 5), big != [1], big <= big[1:])), ('count', lambda: (big.count(500), big.index(1000))), ('index fail', lambda: big.index('x')), ('add', lambda: big + [1000]),
         ('list + vec', lambda: [1] + big), ('mul', lambda: big * 2), ('contains', lambda: (700 in big, 'x' in big)), ('getitem', lambda: (big[500], big[-500])), ('repr', lambda: repr(big)), ('hash', lambda: hash(big)), ('tolist', lambda: big.tolist()), ('totuple', lambda: tuple(big)), ('slice', lambda: big[300:900:7]), ('slice neg', lambda: big[::-1]),
         ('gc', lambda: cyclic()), ('pickle', lambda: pickle.loads(pickle.dumps(P.pbag([1000, 1000])))), ('pdeque', lambda: pickle.loads(pickle.dumps(P.pdeque([1000], 4)))), ('plist', lambda: pickle.loads(pickle.dumps(P.plist([1000])))),
         ('ctor kw', lambda: P.pvector(iterable=[1])), ('ctor 2', lambda: P.pvector([1], [2])), ('v()', lambda: P.v(1000, 2000)), ('m()', lambda: P.m(a=1000)), ('s()', lambda: P.s(1000)), ('b()', lambda: P.b(1000)), ('l()', lambda: P.l(1000)), ('dq()', lambda: P.dq(1000)), ('pmap pre', lambda: P.pmap({1000: 1}, 64))]
    if I is not None:
        T += [('immutable', lambda: I(1, 2).set(a=1000)), ('immutable bad', lambda: I(1, 2).set(q=3))]
    for name, f in rng.sample(T, 14):
        def go(f=f):
            try:
                f()
            except Exception:
                pass
        ctx.note('repeat', name)
        ctx.seen('repeated', name)
        steady(ctx, name, go)


MUT = P.mutant(lambda d: d)


def cyclic():
    l = [0]
    v = P.pvector([l] * 40)
    l[0] = v
    l.append(v.evolver())
    l.append(iter(v))
    del l, v
    gc.collect()


# ------------------------------------------------------------------ held elements stay alive
class Tok:
    __slots__ = ('canary', '__weakref__')

    def __init__(self):
        self.canary = 0x5A17

    def __lt__(self, o):
        return id(self) < id(o)


def holders(rng):
    """Values (and evolvers, iterators, views) that are the only holders of a list of fresh elements: (name, make(list) -> holder, read(holder) -> elements)"""
    L = list
    return [
        ('vec', lambda l: P.pvector(l), L), ('vec append', lambda l: app(P.pvector(), l), L), ('vec evolver', lambda l: P.pvector().evolver().extend(l), lambda e: [e[i] for i in range(len(e))]),
        ('vec evolver set', lambda l: evset(l), lambda e: [e[i] for i in range(len(e))]), ('vec evolver persistent', lambda l: evset(l).persistent(), L), ('vec iter', lambda l: iter(P.pvector(l)), None), ('vec slice', lambda l: P.pvector([1] + l)[1:], L),
        ('vec sum', lambda l: P.pvector(l[:len(l) // 2]) + P.pvector(l[len(l) // 2:]), L), ('vec mset', lambda l: P.pvector([0] * len(l)).mset(*[z for p in enumerate(l) for z in p]), L), ('vec set', lambda l: setall(l), L),
        ('vec delete', lambda l: P.pvector([1] + l + [2]).delete(0).delete(-1), L), ('vec transform', lambda l: P.pvector(range(len(l))).transform([P.ny], lambda i: l[i]), L), ('vec of evolver after set', lambda l: twoev(l), L), ('tolist', lambda l: P.pvector(l).tolist(), L),
        ('map', lambda l: P.pmap({i: x for i, x in enumerate(l)}), lambda m: m.values()), ('map keys', lambda l: P.pmap({x: i for i, x in enumerate(l)}), L), ('map evolver', lambda l: mapev(l), lambda e: [e[i] for i in range(len(e))]), ('map values()', lambda l: P.pmap({i: x for i, x in enumerate(l)}).values(), L),
        ('map items()', lambda l: P.pmap({i: x for i, x in enumerate(l)}).items(), lambda v: [y for _, y in v]), ('map keys()', lambda l: P.pmap({x: 1 for x in l}).keys(), L), ('map iter', lambda l: iter(P.pmap({x: 1 for x in l})), None), ('set', lambda l: P.pset(l), L), ('set evolver', lambda l: setev(l), lambda e: e.persistent()),
        ('set iter', lambda l: iter(P.pset(l)), None), ('bag', lambda l: P.pbag(l), L), ('plist', lambda l: P.plist(l), L), ('plist rest', lambda l: P.plist([0] + l).rest, L), ('plist iter', lambda l: iter(P.plist(l)), None), ('deque', lambda l: P.pdeque(l), L), ('deque rotate', lambda l: P.pdeque(l).rotate(1).appendleft(5).popleft(), L),
        ('freeze', lambda l: P.freeze({'a': [l]}), lambda m: m['a'][0]), ('record', lambda l: R1(b=1, a=P.pvector(l)), lambda r: r.a), ('class', lambda l: C1(b=1, a=P.pvector(l)), lambda r: r.a), ('pickle', None, None)]


def app(v, l):
    for x in l:
        v = v.append(x)
    return v


def evset(l):
    e = P.pvector([None] * len(l)).evolver()
    for i, x in enumerate(l):
        e[i] = x
    return e


def setall(l):
    v = P.pvector([Tok() for _ in l])
    for i, x in enumerate(l):
        v = v.set(i, x)
    return v


def twoev(l):
    e = P.pvector(l).evolver()
    p = e.persistent()
    e.append(1)
    if l:
        e[0] = 2
        e.persistent()
        e[len(l) - 1] = 3
    e.persistent()
    del e
    return p


def mapev(l):
    e = P.pmap().evolver()
    for i, x in enumerate(l):
        e[i] = x
    return e


def setev(l):
    e = P.pset().evolver()
    for x in l:
        e.add(x)
    return e


def alive(ctx, rng, H, n):
    name, make, read = H
    if make is None:
        return
    ctx.note('alive.' + name, n)
    l = [Tok() for _ in range(n)]
    w = [weakref.ref(x) for x in l]
    h = make(l)
    del l
    for _ in range(2):
        gc.collect()
        dead = sum(1 for r in w if r() is None)
        ctx.check_that(not dead, '%s of %d: %d elements died although the value still holds them' % (name, n, dead))
        ctx.counters['kept_alive'] += n
        churn = [P.pvector(range(k)) for k in (1, 33, 70)] + [P.pmap({1: 2})]
        del churn
    got = list(read(h)) if read is not None else list(h)
    ctx.check_that(sum(1 for x in got if isinstance(x, Tok)) == n and all(x.canary == 0x5A17 for x in got if isinstance(x, Tok)), name + ': elements lost', got=len(got), want=n)
    ids = {id(r()) for r in w}
    ctx.check_that(all(id(x) in ids for x in got if isinstance(x, Tok)), name + ': foreign elements')
    del got, h
    gc.collect()
    left = sum(1 for r in w if r() is not None)
    ctx.check_that(not left, '%s of %d: %d elements outlive the value' % (name, n, left))


# ------------------------------------------------------------------
def run(ctx):
    setup_measures(ctx)
    if pvectorc is not None and ctx.impl == 'c':
        ctx.check_that(c03 is not None, 'differential driver missing')
    P.pvector([1]), P.freeze([1])
    gc.collect()
    gc.freeze()
    if ctx.mode == 'repeat':
        for name, F in fam.FAMS.items():
            for i, rng in ctx.cases('repeat.' + name, 40 if name == 'vec' else 14):
                repeat_family(ctx, rng, F)
        if ctx.impl == 'c':
            for i, rng in ctx.cases('hostile', 60):
                repeat_hostile(ctx, rng)
        for i, rng in ctx.cases('rest', 24):
            repeat_rest(ctx, rng)
        return
    sizes = [0, 1, 2, 31, 32, 33, 64, 65, 1023, 1024, 1025, 1056, 1057, 1088, 1089]
    hs = [(h, n) for h in range(len(holders(None))) for n in sizes]
    for (h, n), rng in ctx.items('alive', hs):
        alive(ctx, rng, holders(rng)[h], n)
    for name, F in fam.FAMS.items():
        for i, rng in ctx.cases(name, 60 if name == 'vec' else 25):
            conserve(ctx, name + ' history', fam.history, ctx, rng, P, F, rng.choice([3, 10, 30]))
    kinds = [c09.Seq, c09.Seq, c09.CSeq, c09.MapA, c09.CMapA, c09.SetA, c09.CSetA, c09.RecA, c09.ClsA]
    for i, rng in ctx.cases('evolvers', 120):
        A = kinds[i % len(kinds)]
        conserve(ctx, A.__name__ + ' evolvers', lambda: c09.one(ctx, rng, A(), rng.choice([10, 30])))
    if ctx.impl == 'c':
        for i, rng in ctx.cases('pair', 60):
            conserve(ctx, 'both implementations', c03.pair_history, ctx, rng, 20)
        for i, rng in ctx.cases('pairev', 60):
            conserve(ctx, 'evolvers of both implementations', c03.pair_evolvers, ctx, rng, 25)
    for kind in ('vec', 'pyvec', 'plist', 'deque', 'cvec'):
        for i, rng in ctx.cases('faults.' + kind, 12):
            conserve(ctx, 'failing operations on ' + kind, c17.sequence, ctx, rng, kind)
    for kind in ('map', 'set', 'bag', 'cmap', 'cset'):
        for i, rng in ctx.cases('faults.' + kind, 8):
            conserve(ctx, 'failing operations on ' + kind, c17.keyed, ctx, rng, kind)
    for i, rng in ctx.cases('faults.records', 12):
        conserve(ctx, 'failing operations on records', c17.records, ctx, rng)
    for i, rng in ctx.cases('faults.nested', 12):
        conserve(ctx, 'failing nested operations', c17.nested, ctx, rng)
