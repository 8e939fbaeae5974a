"""C09: evolvers shadowed by plain models; several evolvers of shared originals interleaved, every result kept and re-audited."""
import pyrsistent as P
from .base import *
from .fam import *


class CV(P.CheckedPVector):
    __type__ = (int, E)


class CVi(P.CheckedPVector):
    __invariant__ = lambda x: (not isinstance(x, str), 'strings not allowed')


class CS(P.CheckedPSet):
    __type__ = (int, K)


class CM(P.CheckedPMap):
    __key_type__ = (int, K)
    __value_type__ = (E, int)


class Rec(P.PRecord):
    a = P.field(type=int)
    b = P.field(mandatory=True)
    c = P.field(invariant=lambda x: (x is not None, 'none'))
    d = P.field()
    e = P.field(type=(int, str))


class Cls(P.PClass):
    a = P.field(type=int)
    b = P.field(mandatory=True)
    c = P.field(invariant=lambda x: (x is not None, 'none'))
    d = P.field()
    e = P.field(type=(int, str))


def vlist(v):
    return list(v)


class Seq:
    """Vector-like evolvers (PVector of either flavour, CheckedPVector)."""
    name = 'vec'

    def make(self, rng, ctx):
        l = values(rng, size(rng, ctx, small=0.6), ctx)
        return P.pvector(l), l

    def content(self, v):
        return list(v)

    def gen(self, rng, ctx, e, m):
        o = gen_vec_evolver(rng, ctx, len(m))
        return o.name, o.desc, o.f, o.m, o.kind == 'obs'

    def same(self, a, b):
        return same_seq(a, b)

    def reads(self, ctx, rng, e, m):
        n = len(m)
        ctx.check_that(len(e) == n, 'len(evolver) wrong', got=len(e), want=n)
        for i in (range(-n, n) if n < 30 else [rng.randrange(-n, n) for _ in range(14)] + [0, n - 1, -n, 31, 32, n - 32, n - 33]):
            if -n <= i < n:
                x = e[i]
                ctx.check_that(x is m[i], 'evolver read wrong', index=i, got=x, want=m[i], size=n)
        for i in (n, -n - 1, n + 32):
            ctx.check_that(isinstance(attempt(e.__getitem__, i)[1], IndexError), 'evolver read out of range accepted', index=i, size=n)


class CSeq(Seq):
    name = 'checkedvec'

    def make(self, rng, ctx):
        n = size(rng, ctx, small=0.8, cap=1100)
        l = [E() if rng.random() < 0.5 else i for i in range(n)]
        return (CV if rng.random() < 0.5 else CVi)(l), l

    def gen(self, rng, ctx, e, m):
        while True:
            name, desc, f, mm, obs = Seq.gen(self, rng, ctx, e, m)
            if name in ('del', 'delete', 'read', 'len'):
                return name, desc, f, mm, obs
            x = E() if rng.random() < 0.7 else rng.randrange(9)
            if name == 'append':
                return name, x, lambda e: e.append(x), lambda l: l.append(x), False
            if name == 'extend':
                xs = [E() for _ in range(rng.choice([0, 1, 2, 31, 32, 33]))]
                return name, len(xs), lambda e: e.extend(xs), lambda l: l.extend(xs), False
            if name in ('set', 'item'):
                i = index(rng, len(m), ctx)

                def ms(l):
                    l[:] = vec_set(l, i, x)
                return name, (i, x), lambda e: e.set(i, x), ms, False


class MapA:
    name = 'map'

    def uni(self, rng, ctx):
        return key_universe(rng, ctx, rng.choice([4, 12, 30, 70])) or [0]

    def make(self, rng, ctx):
        self.keys = self.uni(rng, ctx)
        d = {k: value(rng, ctx) for k in self.keys if rng.random() < 0.5}
        return build_map(rng, ctx, P, d)[0], d

    def content(self, v):
        return dict(v.iteritems())

    def gen(self, rng, ctx, e, m):
        o = gen_map_evolver(rng, ctx, m, self.keys)
        return o.name, o.desc, o.f, o.m, o.kind == 'obs'

    def same(self, a, b):
        if len(a) != len(b):
            return False
        ka = {k: k for k in a}
        return all(k in a and a[k] is b[k] and ka[k] is k for k in b)

    def reads(self, ctx, rng, e, m):
        ctx.check_that(len(e) == len(m), 'len(evolver) wrong', got=len(e), want=len(m))
        for k in self.keys:
            if k in m:
                r = attempt(e.__getitem__, k)
                ctx.check_that(r[0] == 'ok' and r[1] is m[k] and k in e, 'evolver read wrong', key=k, got=r, want=m[k])
            else:
                ctx.check_that(k not in e and isinstance(attempt(e.__getitem__, k)[1], KeyError), 'evolver finds an absent key', key=k)


class CMapA(MapA):
    name = 'checkedmap'

    def uni(self, rng, ctx):
        h = rng.choice([1, 2, 8, 64])
        return [i if i % 2 else K(i, i % h) for i in range(rng.choice([4, 12, 40]))]

    def make(self, rng, ctx):
        self.keys = self.uni(rng, ctx)
        d = {k: E() for k in self.keys if rng.random() < 0.5}
        return CM(d), d

    def gen(self, rng, ctx, e, m):
        while True:
            name, desc, f, mm, obs = MapA.gen(self, rng, ctx, e, m)
            if name in ('set', 'item'):
                k, x = rng.choice(self.keys), E()

                def ms(d):
                    d[k] = x
                return name, k, lambda e: e.set(k, x), ms, False
            return name, desc, f, mm, obs


class SetA(MapA):
    name = 'set'

    def make(self, rng, ctx):
        self.keys = self.uni(rng, ctx)
        d = {k: k for k in self.keys if rng.random() < 0.5}
        return P.pset(list(d)), d

    def content(self, v):
        return {x: x for x in v}

    def gen(self, rng, ctx, e, m):
        o = gen_set_evolver(rng, ctx, m, self.keys)
        return o.name, o.desc, o.f, o.m, o.kind == 'obs'

    def reads(self, ctx, rng, e, m):
        ctx.check_that(len(e) == len(m), 'len(evolver) wrong', got=len(e), want=len(m))


class CSetA(SetA):
    name = 'checkedset'

    def uni(self, rng, ctx):
        return CMapA.uni(self, rng, ctx)

    def make(self, rng, ctx):
        self.keys = self.uni(rng, ctx)
        d = {k: k for k in self.keys if rng.random() < 0.5}
        return CS(list(d)), d

    def gen(self, rng, ctx, e, m):
        k = rng.choice(self.keys)
        r = rng.random()

        def mr(d):
            del d[k]
        if r < 0.6:
            return 'add', k, lambda e: e.add(k), lambda d: d.setdefault(k, k), False
        return 'remove', k, lambda e: e.remove(k), mr, False


class RecA:
    name = 'record'
    cls = Rec
    noattr = False

    def make(self, rng, ctx):
        d = {'b': E()}
        for f in 'acde':
            if rng.random() < 0.5:
                d[f] = self.val(rng, f)
        return self.cls(**d), d

    def val(self, rng, f):
        return rng.randrange(300, 400) if f in 'ae' else E()

    def content(self, v):
        if isinstance(v, P.PClass):
            return {f: getattr(v, f) for f in 'abcde' if hasattr(v, f)}
        return dict(v.iteritems())

    def same(self, a, b):
        return len(a) == len(b) and all(k in a and a[k] is b[k] for k in b)

    def gen(self, rng, ctx, e, m):
        f = rng.choice('acdebb')
        x = self.val(rng, f)
        if rng.random() < 0.15 and f in m:
            x = m[f]
        style = rng.randrange(3 if self.cls is Cls else 2)

        def ms(d):
            d[f] = x

        def fs(e):
            if style == 0:
                e.set(f, x)
            elif style == 1:
                e[f] = x
            else:
                setattr(e, f, x)
        r = rng.random()
        if r < 0.6 or f == 'b':
            return 'set', (f, style), fs, ms, False

        def md(d):
            if f not in d:
                raise (KeyError if self.cls is Rec else AttributeError)(f)
            del d[f]
        if r < 0.75:
            return 'remove', f, lambda e: e.remove(f), md, False

        def fd(e):
            del e[f]
        return 'del', f, fd, md, False

    def reads(self, ctx, rng, e, m):
        if self.cls is Rec:
            ctx.check_that(len(e) == len(m), 'len(evolver) wrong', got=len(e), want=len(m))
        for f in 'abcde':
            r = attempt(e.__getitem__, f)
            if f in m:
                ctx.check_that(r[0] == 'ok' and r[1] is m[f], 'evolver read wrong', field=f, got=r, want=m[f])
                if self.cls is Cls:
                    ctx.check_that(getattr(e, f) is m[f], 'evolver attribute read wrong', field=f)
            else:
                ctx.check_that(r[0] == 'exc', 'evolver reads a removed field', field=f, got=r)


class ClsA(RecA):
    name = 'class'
    cls = Cls


class Ev:
    def __init__(self, e, orig, model):
        self.e, self.orig, self.base, self.model = e, orig, orig, model
        self.base_content = None
        self.touched = False        # an update succeeded since creation/last persistent
        self.ever = False


def run(ctx):
    if ctx.mode == 'sweep':
        return sweep(ctx)
    kinds = [Seq, Seq, Seq, CSeq, MapA, MapA, CMapA, SetA, CSetA, RecA, ClsA]
    for i, rng in ctx.cases('evolvers', 1500):
        A = kinds[i % len(kinds)]()
        one(ctx, rng, A, rng.choice([10, 30, 60]))


def one(ctx, rng, A, steps):
    v, m = A.make(rng, ctx)
    results = [(v, m.copy() if hasattr(m, 'copy') else dict(m))]
    evs = [Ev(v.evolver(), v, m.copy())]
    ctx.seen('kinds', A.name)
    for _ in range(steps):
        r = rng.random()
        if r < 0.1 and len(evs) < 5:
            o, om = rng.choice(results)
            evs.append(Ev(o.evolver(), o, om.copy()))
            ctx.note(A.name + '.evolver', len(om))
            dirty(ctx, evs[-1].e, False, 'fresh evolver is dirty')
            continue
        x = rng.choice(evs)
        if r < 0.7:
            name, desc, f, mm, obs = A.gen(rng, ctx, x.e, x.model)
            ctx.note(A.name + '.' + name, len(x.model), desc)
            a = attempt(f, x.e)
            new = x.model.copy()
            b = attempt(mm, new)
            ctx.counters['updates'] += 1
            if a[0] != b[0] or (a[0] == 'exc' and exc_kind(a[1]) != exc_kind(b[1])):
                ctx.fail('%s evolver %s(%s): outcome differs from the update applied to the original' % (A.name, name, brief(desc)), got=a, want=b, model=x.model)
            if a[0] == 'ok':
                x.model = new
                if obs:
                    ctx.check_that(obs_same(a[1], b[1]), 'evolver %s wrong' % name, got=a[1], want=b[1])
                else:
                    x.touched = x.ever = True
            else:
                ctx.counters['failing_ops'] += 1
        elif r < 0.85:
            check_persistent(ctx, A, x, results)
        else:
            ctx.note(A.name + '.reads', len(x.model), nontrivial=0)
            A.reads(ctx, rng, x.e, x.model)
        if hasattr(type(x.e), 'is_dirty') and A.name not in ('record', 'class'):
            base = A.content(x.base)
            if not A.same(base, x.model):
                dirty(ctx, x.e, True, 'is_dirty() is False although the contents changed since creation or the last persistent()')
            elif not x.touched:
                dirty(ctx, x.e, False, 'is_dirty() is True without any change')
        if rng.random() < 0.1:
            for y in evs:
                A.reads(ctx, rng, y.e, y.model)
            audit(ctx, A, results)
    for x in evs:
        A.reads(ctx, rng, x.e, x.model)
        check_persistent(ctx, A, x, results)
        check_persistent(ctx, A, x, results)
        A.reads(ctx, rng, x.e, x.model)
    audit(ctx, A, results)


def dirty(ctx, e, want, msg):
    if hasattr(type(e), 'is_dirty'):
        ctx.check_that(bool(e.is_dirty()) is want, msg)


def check_persistent(ctx, A, x, results):
    ctx.note(A.name + '.persistent', len(x.model))
    p = x.e.persistent()
    ctx.counters['persistent'] += 1
    ctx.check_that(type(p) is type(x.orig), 'persistent() gives a different type', got=type(p), want=type(x.orig))
    c = A.content(p)
    if not A.same(c, x.model):
        ctx.fail('%s: persistent() differs from applying the updates one by one' % A.name, got=c, want=x.model)
    if A.name in ('record', 'class'):
        if not x.ever:
            ctx.check_that(p is x.orig, 'persistent() without changes does not return the original')
    elif not x.touched:
        ctx.check_that(p is x.base, 'persistent() without changes does not return the original', type=type(p), size=len(c))
    x.base, x.touched = p, False
    results.append((p, x.model.copy()))
    if len(results) > 20:
        results.pop(5)
    dirty(ctx, x.e, False, 'evolver is dirty right after persistent()') if A.name not in ('record', 'class') else None


def audit(ctx, A, results):
    for v, m in results:
        ctx.counters['audits'] += 1
        c = A.content(v)
        if not A.same(c, m):
            ctx.fail('%s: a value obtained earlier (original or persistent() result) changed' % A.name, now=c, before=m)


def sweep(ctx):
    """Vector evolvers: size x touched index x (second touch after persistent) with two evolvers over the same nodes."""
    A = Seq()
    sizes = sorted(set(BOUNDARY) | {s for s in ctx.consts['sizes'] if s < 2200}) + [32768, 32769, 33825]
    for n, rng in ctx.items('sizes', sizes):
        if not n:
            continue
        l = [E() for _ in range(n)]
        v = P.pvector(l)
        tail = ((n - 1) >> 5) << 5
        idx = sorted({i for i in (0, 1, 31, 32, 33, 63, 64, 1023, 1024, 1055, 1056, tail - 33, tail - 32, tail - 1, tail, n - 2, n - 1, n // 2) if 0 <= i < n})
        if n > 5000:
            idx = [0, 1023, tail - 1, n - 1]
        for i in idx:
            for j in (idx if n <= 1100 else idx[::3] + [i]):
                ctx.note('sweep', n, i, j)
                res = [(v, l)]
                e1, e2 = Ev(v.evolver(), v, list(l)), Ev(v.evolver(), v, list(l))
                for ev, k in ((e1, i), (e2, j), (e1, j), (e2, i)):
                    x = E()
                    ev.e[k] = x
                    ev.model[k] = x
                    ev.touched = True
                    A.reads(ctx, rng, e1.e, e1.model)
                    A.reads(ctx, rng, e2.e, e2.model)
                    check_persistent(ctx, A, ev, res)
                for ev in (e1, e2):
                    x = E()
                    ev.e.append(x)
                    ev.model.append(x)
                    x = E()
                    ev.e[i] = x
                    ev.model[i] = x
                    ev.touched = True
                    check_persistent(ctx, A, ev, res)
                x = E()
                e1.e[j] = x
                e1.model[j] = x
                e1.e.extend(l[:33])
                e1.model.extend(l[:33])
                e1.touched = True
                A.reads(ctx, rng, e1.e, e1.model)
                if n <= 2200:
                    e1.e.delete(i)
                    del e1.model[i]
                    A.reads(ctx, rng, e1.e, e1.model)
                check_persistent(ctx, A, e1, res)
                check_persistent(ctx, A, e2, res)
                audit(ctx, A, res)
