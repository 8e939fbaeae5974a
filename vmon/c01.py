"""C01: values handed out never change.  A growing forest of versions of all types, kept evolvers, iterators, views, mutated
inputs and outputs, failing operations; a snapshot taken when a value is handed out is compared again and again."""
import copy, gc, operator, pickle
import pyrsistent as P
from .base import *
from .fam import *


class Boom(Exception):
    pass


class CV(P.CheckedPVector):
    __type__ = int


class CVany(P.CheckedPVector):
    __invariant__ = lambda x: (x != 'bad', 'bad')


class CS(P.CheckedPSet):
    __type__ = (int, str)


class CM(P.CheckedPMap):
    __key_type__ = (int, str)
    __value_type__ = int


class R(P.PRecord):
    a = P.field(type=int)
    b = P.field()
    c = P.pvector_field(int)
    d = P.pmap_field(str, int)
    e = P.field(type=CV)
    f = P.field(initial=5)


class C(P.PClass):
    a = P.field(type=int)
    b = P.field()
    c = P.pvector_field(int)
    d = P.pset_field(int)
    e = P.field(type=CM)
    f = P.field(initial=dict)


class Armed:
    """Element/key whose comparison and hashing raise when armed."""
    on = False

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        if Armed.on:
            raise Boom()
        return self.n & 3

    def __eq__(self, o):
        if Armed.on:
            raise Boom()
        return isinstance(o, Armed) and self.n == o.n

    def __lt__(self, o):
        if Armed.on:
            raise Boom()
        return self.n < o.n

    def __repr__(self):
        return 'Armed(%d)' % self.n


def raising_iter(items, k):
    for i, x in enumerate(items):
        if i == k:
            raise Boom()
        yield x
    raise Boom()


def contents(v):
    """The full observable content as a flat list of element objects and plain data."""
    if isinstance(v, P.PVector):
        return list(v)
    if isinstance(v, P.PMap):
        return [x for kv in v.iteritems() for x in kv]
    if isinstance(v, P.PClass):
        out = []
        for n in 'abcdef':
            out += [n, getattr(v, n, None)]
        return out
    if isinstance(v, VIEWS):
        return [x for y in v for x in (y if type(y) is tuple and len(y) == 2 else (y,))]
    return list(v)


VIEWS = (type(P.m().items()), type(P.m().values()))


class Snap:
    def __init__(self, v, rng, parent=''):
        self.v = v
        self.parent = parent
        self.elems = contents(v)
        self.n = len(v) if not isinstance(v, P.PClass) else None
        self.hash = attempt(hash, v) if len(self.elems) < 400 and not isinstance(v, VIEWS) else None
        self.rep = repr(v) if len(self.elems) < 60 else None
        self.plain = [(x, list(x)) for x in self.elems if type(x) is list] + [(x, dict(x)) for x in self.elems if type(x) is dict]
        self.maxlen = getattr(v, 'maxlen', None) if isinstance(v, P.PDeque) else None

    def recheck(self, ctx, rng, full):
        v = self.v
        ctx.counters['rechecks'] += 1
        if self.n is not None:
            ctx.check_that(len(v) == self.n, 'length of an existing value changed', type=type(v), before=self.n, now=len(v), derived=self.parent)
        now = contents(v)
        if not (len(now) == len(self.elems) and all(a is b for a, b in zip(now, self.elems))):
            if not (isinstance(v, VIEWS) and len(now) == len(self.elems) and all(same(a, b) for a, b in zip(now, self.elems))):
                ctx.fail('contents of an existing value changed', type=type(v), before=self.elems, now=now, derived=self.parent)
        if isinstance(v, P.PVector):
            n = self.n
            for i in (range(n) if n < 40 else [rng.randrange(n) for _ in range(10)] + [0, n - 1]):
                ctx.check_that(v[i] is self.elems[i], 'indexing an existing value gives something else now', index=i, before=self.elems[i], now=v[i])
        elif isinstance(v, P.PMap):
            it = iter(self.elems)
            for k, x in zip(it, it):
                r = attempt(v.__getitem__, k)
                ctx.check_that(r[0] == 'ok' and r[1] is x, 'lookup in an existing map gives something else now', key=k, before=x, now=r[1])
        elif isinstance(v, P.PSet) and len(self.elems) < 200:
            for x in self.elems:
                ctx.check_that(x in v, 'element of an existing set no longer found', element=x)
        elif isinstance(v, P.PDeque):
            ctx.check_that(v.maxlen == self.maxlen, 'maxlen changed')
        if full:
            if self.rep is not None and not any(type(x) in (list, dict) for x in self.elems):
                ctx.check_that(repr(v) == self.rep, 'repr of an existing value changed', before=self.rep, now=repr(v))
            if self.hash is not None and self.hash[0] == 'ok':
                ctx.check_that(hash(v) == self.hash[1], 'hash of an existing value changed', value=v)


def struct_ops(rng, ctx, v):
    """(name, f) operations on checked collections, records and classes; some fail on purpose."""
    i = rng.randrange(-3, 50)
    bad = rng.choice(['bad', None, 1.5, object()])
    x = bad if rng.random() < 0.2 else i
    if isinstance(v, CVany):
        x = 'bad' if rng.random() < 0.15 else value(rng, ctx)
    if isinstance(v, P.CheckedPVector):
        n = len(v)
        j = index(rng, n)
        return rng.choice([
            ('append', lambda: v.append(x)), ('extend', lambda: v.extend([1, 2] * rng.choice([1, 16, 20]) + [x])), ('set', lambda: v.set(j, x)),
            ('mset', lambda: v.mset(0, 3, j, x)), ('delete', lambda: v.delete(j)), ('slice', lambda: v[a_slice(rng, n)]), ('add', lambda: v + [1, x]),
            ('remove', lambda: v.remove(x)), ('transform', lambda: v.transform([P.ny], lambda y: y)), ('extend_raise', lambda: v.extend(raising_iter([1] * 40, 35))),
            ('create', lambda: type(v).create(list(v)))])
    if isinstance(v, P.CheckedPSet):
        return rng.choice([
            ('add', lambda: v.add(x)), ('update', lambda: v.update([1, 2, x])), ('remove', lambda: v.remove(x)), ('discard', lambda: v.discard(x)),
            ('union', lambda: v | {1, 'z'}), ('and', lambda: v & {1, 2, 3}), ('sub', lambda: v - {1, 2, 3})])
    k = rng.choice(['a', 'b', 'zz', 1, 2, 3, 40])
    if isinstance(v, P.CheckedPMap):
        return rng.choice([
            ('set', lambda: v.set(k, x)), ('update', lambda: v.update({k: x, 'q': 2})), ('remove', lambda: v.remove(k)), ('discard', lambda: v.discard(k)),
            ('or', lambda: v + {k: 4}), ('update_with', lambda: v.update_with(operator.add, {k: 1, 'a': 1})), ('transform', lambda: v.transform([k], i)),
            ('keys', lambda: v.keys()), ('items', lambda: v.items()), ('values', lambda: v.values())])
    f = rng.choice('abcdef')
    val = {'a': x, 'b': value(rng, ctx), 'c': [1, 2, i], 'd': ({'k': i} if isinstance(v, P.PRecord) else [i, 3]), 'e': ([1, i] if isinstance(v, P.PRecord) else {1: i}), 'f': i}[f]
    if isinstance(v, P.PRecord):
        return rng.choice([
            ('set', lambda: v.set(**{f: val})), ('set2', lambda: v.set(f, val)), ('remove', lambda: v.remove(f)), ('discard', lambda: v.discard(f)),
            ('update', lambda: v.update({f: val, 'b': 3})), ('transform', lambda: v.transform(['c', 0], 77)), ('transform2', lambda: v.transform([f], val)),
            ('nofield', lambda: v.set(nope=3)), ('items', lambda: v.items()), ('keys', lambda: v.keys()), ('serialize', lambda: (mutate(v.serialize(), rng), None)[1])])
    return rng.choice([
        ('set', lambda: v.set(**{f: val})), ('set2', lambda: v.set(f, val)), ('remove', lambda: v.remove(f)), ('transform', lambda: v.transform(['c', 0], 77)),
        ('transform2', lambda: v.transform([f], val)), ('nofield', lambda: v.set(nope=3)), ('serialize', lambda: (mutate(v.serialize(), rng), None)[1]),
        ('setattr', lambda: setattr(v, f, val)), ('delattr', lambda: delattr(v, f)), ('setnew', lambda: setattr(v, 'zzz', 3))])


def struct_evolver_op(rng, ctx, e, kind):
    x = rng.choice([1, 2, 3, 50, 'bad', None])
    if kind is CVany:
        x = value(rng, ctx)
    if issubclass(kind, P.CheckedPVector):
        j = rng.randrange(-2, len(e) + 2)
        return rng.choice([lambda: e.append(x), lambda: e.set(j, x), lambda: e.extend([1, x]), lambda: e.extend([2] * 33), lambda: e.__delitem__(j)])
    if issubclass(kind, P.CheckedPSet):
        return rng.choice([lambda: e.add(x), lambda: e.remove(x)])
    k = rng.choice(['a', 'b', 'zz', 1, 2, 40])
    if issubclass(kind, P.CheckedPMap):
        return rng.choice([lambda: e.set(k, x), lambda: e.remove(k), lambda: e.__setitem__(k, 5)])
    f = rng.choice('abf')
    return rng.choice([lambda: e.set(f, 4), lambda: e.set(f, x), lambda: e.remove(f), lambda: e.__delitem__(f), lambda: e.set('c', [1, 2])])


def mutate(x, rng):
    """Scribble over mutable output."""
    if isinstance(x, list):
        for i, y in enumerate(x):
            if type(y) in (list, dict, set):
                pass
        x.append(E())
        if len(x) > 1:
            x[0] = E()
            del x[1:3]
    elif isinstance(x, dict):
        x['scribble'] = 1
        for k in list(x)[:3]:
            x[k] = E()
    elif isinstance(x, set):
        x.clear()
        x.add('scribble')


def fresh(rng, ctx):
    """A new value of some type -> (family name or 'struct', value, mutable input it was made from)"""
    k = rng.choice(['vec', 'vec', 'vec', 'vec', 'map', 'map', 'set', 'bag', 'plist', 'deque', 'CV', 'CVany', 'CS', 'CM', 'R', 'C', 'freeze'])
    nn = size(rng, ctx, small=0.7)
    if k == 'vec':
        src = values(rng, nn, ctx)
        return k, P.pvector(src), src
    if k == 'map':
        src = {x: value(rng, ctx) for x in key_universe(rng, ctx, min(nn, 120))}
        return k, P.pmap(src), src
    if k == 'set':
        src = set(key_universe(rng, ctx, min(nn, 120)))
        return k, P.pset(src), src
    if k == 'bag':
        src = key_universe(rng, ctx, min(nn, 60)) * 2
        return k, P.pbag(src), src
    if k == 'plist':
        src = values(rng, min(nn, 80), ctx)
        return k, P.plist(src), src
    if k == 'deque':
        src = values(rng, min(nn, 80), ctx)
        return k, P.pdeque(src, rng.choice([None, None, 5, len(src)])), src
    if k == 'CV':
        src = list(range(nn))
        return 'struct', CV(src), src
    if k == 'CVany':
        src = values(rng, nn, ctx)
        return 'struct', CVany(src), src
    if k == 'CS':
        src = set(range(min(nn, 80)))
        return 'struct', CS(src), src
    if k == 'CM':
        src = {i: i for i in range(min(nn, 80))}
        return 'struct', CM(src), src
    if k == 'R':
        src = {'k': 1}
        return 'struct', R(a=1, c=range(min(nn, 70)), d=src, b=E()), src
    if k == 'C':
        src = [1, 2, 3]
        return 'struct', C(a=1, c=src, d=src, e={1: 2}), src
    src = {'l': [1, [2, 3], {'x': [4]}], 's': {1, 2}, 't': ([1], 2)}
    return 'map', P.freeze(src), src


EVOLVABLE = {'vec', 'map', 'set', 'struct'}


def run(ctx):
    if ctx.worker == 0:
        pl = P.plist([1, 2])
        try:
            pl.first = 9
        except (AttributeError, TypeError):
            pass
        if pl.first != 1:
            ctx.finding('plist-slots-assignable', 'plist([1, 2]).first = 9 changes the list in place')
        ctx.counters['probes'] += 1
    if ctx.mode == 'sweep':
        return sweep(ctx)
    for _, rng in ctx.cases('forest', 300):
        forest(ctx, rng, rng.choice([40, 80, 160]))


def model_of(fam, v):
    if fam == 'vec' or fam == 'plist':
        return list(v)
    if fam == 'map':
        return dict(v.iteritems())
    if fam == 'set':
        return {x: x for x in v}
    if fam == 'bag':
        d = {}
        for x in v:
            d[x] = d.get(x, 0) + 1
        return d
    return MD(v, v.maxlen)


def forest(ctx, rng, steps):
    snaps, evs, its, srcs, eqs = [], [], [], [], []

    def add(fam, v, parent):
        if isinstance(v, (P.PVector, P.PMap, P.PSet, P.PBag, P.PDeque, P.PClass) + VIEWS) or type(v) in PLISTS:
            snaps.append((fam, Snap(v, rng, parent)))
            ctx.counters['versions'] += 1
            ctx.seen('types', type(v).__name__)
    PLISTS = (type(P.plist()), type(P.plist([1])))
    # a few values with Armed elements for failing comparisons
    armed = [Armed(i) for i in range(12)]
    for _ in range(3):
        fam, v, src = fresh(rng, ctx)
        add(fam, v, 'fresh')
        srcs.append(src)
    uni = key_universe(rng, ctx, 30) or [0]
    for step in range(steps):
        r = rng.random()
        if r < 0.08 or not snaps:
            fam, v, src = fresh(rng, ctx)
            ctx.note('fresh', fam, len(src))
            add(fam, v, 'fresh')
            srcs.append(src)
        elif r < 0.45:
            fam, sn = snaps[-1] if rng.random() < 0.4 else rng.choice(snaps)
            v = sn.v
            if isinstance(v, VIEWS):
                ctx.note('view', type(v).__name__)
                attempt(v.__contains__, 3)
            elif fam == 'struct':
                if isinstance(v, (P.CheckedType, P.PClass)):
                    name, f = struct_ops(rng, ctx, v)
                    ctx.note('struct.' + type(v).__name__ + '.' + name)
                    k, res = attempt(f)
                    ctx.counters['struct.' + k] += 1
                    if k == 'ok' and res is not None:
                        add('struct', res, name)
                elif isinstance(v, P.PVector):
                    add('vec', v, 'plain')
                elif isinstance(v, P.PSet):
                    add('set', v, 'plain')
            else:
                m = model_of(fam, v)
                pool = [(s.v, model_of(fam, s.v)) for g, s in snaps[-6:] if g == fam and not isinstance(s.v, VIEWS)]
                if fam in ('map', 'set', 'bag'):
                    op = {'map': gen_map, 'set': gen_set, 'bag': gen_bag}[fam](rng, ctx, P, m, uni, pool)
                else:
                    op = {'vec': gen_vec, 'plist': gen_plist, 'deque': gen_deque}[fam](rng, ctx, P, m, pool)
                ctx.note(fam + '.' + op.name, len(m), op.desc)
                k, res = attempt(op.f, v)
                if k == 'ok' and op.kind == 'new':
                    add(fam, res, op.name)
                elif k == 'ok' and op.kind == 'newlog':
                    add(fam, res[0], op.name)
                elif k == 'ok' and op.name == 'tolist':
                    mutate(res, rng)
                elif k == 'exc':
                    ctx.counters['failing_ops'] += 1
                if fam == 'map' and rng.random() < 0.1:
                    add('map', v.items(), 'items')
                    add('map', v.values(), 'values')
                    add('set', v.keys(), 'keys')
                if fam == 'vec' and rng.random() < 0.1:
                    add('vec', v.transform([rng.choice([P.ny, 0, lambda i: i % 3 == 0])], lambda x: E()) if len(v) else v, 'transform')
        elif r < 0.62:
            if len(evs) < 3 or rng.random() < 0.15:
                cands = [s for f, s in snaps if f in EVOLVABLE and not isinstance(s.v, VIEWS) and hasattr(s.v, 'evolver')]
                if cands:
                    sn = rng.choice(cands)
                    v = sn.v
                    fam = 'struct' if isinstance(v, (P.CheckedType, P.PClass)) else 'vec' if isinstance(v, P.PVector) else 'map' if isinstance(v, P.PMap) else 'set'
                    evs.append((fam, type(v), v.evolver(), len(contents(v))))
                    ctx.note('evolver', fam, len(contents(v)))
            elif evs:
                fam, kind, e, n = rng.choice(evs)
                for _ in range(rng.choice([1, 1, 2, 5])):
                    if fam == 'struct':
                        f = struct_evolver_op(rng, ctx, e, kind)
                        ctx.note('evolver.struct')
                        attempt(f)
                    else:
                        op = gen_vec_evolver(rng, ctx, len(e)) if fam == 'vec' else (gen_map_evolver if fam == 'map' else gen_set_evolver)(rng, ctx, {}, uni)
                        ctx.note('evolver.' + fam + '.' + op.name, op.desc)
                        attempt(op.f, e)
                if rng.random() < 0.5:
                    ctx.note('persistent', fam)
                    k, res = attempt(e.persistent)
                    if k == 'ok':
                        add(fam, res, 'persistent')
        elif r < 0.70:
            fam, sn = rng.choice(snaps)
            if not isinstance(sn.v, (P.PClass,) + VIEWS) and len(its) < 8:
                want = list(sn.v) if not isinstance(sn.v, P.PMap) else [k for k in sn.v.iterkeys()]
                its.append([iter(sn.v), want, 0])
                ctx.note('iter', len(want))
        elif r < 0.76:
            for it in its:
                advance(ctx, it, rng.choice([1, 3, 20]))
        elif r < 0.82:
            src = rng.choice(srcs)
            ctx.note('mutate_input', type(src).__name__)
            mutate(src, rng)
        elif r < 0.87:
            fam, sn = rng.choice(snaps)
            v = sn.v
            out = (P.thaw(v) if rng.random() < 0.5 else list(v)) if not isinstance(v, P.PClass) else v.serialize()
            ctx.note('mutate_output', type(out).__name__)
            if type(out) in (list, dict, set):
                mutate(out, rng)
        elif r < 0.93:
            failing(ctx, rng, snaps, armed, add)
        elif r < 0.96:
            inplace(ctx, rng, snaps, add)
        elif r < 0.98:
            ctx.note('gc')
            gc.collect()
        else:
            if len(snaps) > 4:
                ctx.note('drop')
                del snaps[rng.randrange(len(snaps))]
        for fam, sn in (rng.sample(snaps, 3) if len(snaps) > 3 else snaps):
            sn.recheck(ctx, rng, False)
        if len(snaps) > 60:
            del snaps[rng.randrange(40)]
    for it in its:
        advance(ctx, it, 10**6)
    for fam, sn in snaps:
        sn.recheck(ctx, rng, True)


def advance(ctx, it, k):
    while k:
        k -= 1
        try:
            x = next(it[0])
        except StopIteration:
            ctx.check_that(it[2] == len(it[1]), 'iterator ended early', at=it[2], want=len(it[1]))
            return
        ctx.check_that(it[2] < len(it[1]) and x is it[1][it[2]], 'iterator over an existing value yields something else', at=it[2], got=x)
        it[2] += 1
        ctx.counters['iterated'] += 1


def failing(ctx, rng, snaps, armed, add):
    """Operations that fail half-way through."""
    fam, sn = rng.choice(snaps)
    v = sn.v
    j = rng.randrange(0, 70)
    items = [E() for _ in range(j + 1)]
    vec = P.pvector(armed + items)
    mp = P.pmap({a: 1 for a in armed})
    add('vec', vec, 'armed')
    add('map', mp, 'armed')
    fs = [lambda: vec.extend(raising_iter(items, j)), lambda: vec.remove(Armed(99)), lambda: vec.index(Armed(99)), lambda: vec.count(Armed(9)),
          lambda: mp.set(Armed(3), 2), lambda: mp.remove(Armed(3)), lambda: mp.update({Armed(4): 1}), lambda: mp[Armed(5)], lambda: hash(mp), lambda: mp == P.pmap({Armed(3): 1}),
          lambda: vec == P.pvector(vec), lambda: vec < P.pvector(armed[::-1]), lambda: P.pset(vec), lambda: P.pbag(armed + armed)]
    if isinstance(v, P.PVector):
        fs += [lambda: v.extend(raising_iter(items, j)), lambda: v + raising_iter(items, j), lambda: v.set(10**9, 1), lambda: v.mset(0, 1, 10**9, 2), lambda: v.set('x', 1),
               lambda: v.evolver().extend(raising_iter(items, j)), lambda: v.transform([P.ny], boom)] * 3
    elif fam in ('plist', 'deque'):
        fs += [lambda: v.mcons(raising_iter(items, j)) if fam == 'plist' else v.extendleft(raising_iter(items, j)), lambda: v.remove(E()),
               lambda: v.extend(raising_iter(items, j)) if fam == 'deque' else v.split('x')] * 3
    elif isinstance(v, P.PMap):
        fs += [lambda: v.update_with(boom, dict(v)), lambda: v.update({Armed(1): 2, 3: 4}), lambda: v.set([], 1), lambda: v.transform([P.ny], boom)] * 3
    elif isinstance(v, P.PSet):
        fs += [lambda: v.update(raising_iter(items, j)), lambda: v.add([]), lambda: v.add(Armed(1))] * 3
    f = rng.choice(fs)
    ctx.note('failing', fam)
    Armed.on = rng.random() < 0.7
    try:
        k, res = attempt(f)
    finally:
        Armed.on = False
    ctx.counters['failing_ops'] += k == 'exc'
    for _, s in snaps[-6:]:
        s.recheck(ctx, rng, False)
    sn.recheck(ctx, rng, False)


def boom(*a):
    raise Boom()


def inplace(ctx, rng, snaps, add):
    """Augmented assignment and item/attribute assignment on an alias."""
    fam, sn = rng.choice(snaps)
    w = sn.v
    ctx.note('inplace', fam, type(w).__name__)
    k = rng.randrange(7)
    try:
        if k == 0:
            w += rng.choice([[1], {1: 2}, P.pbag([1]), (3,)])
        elif k == 1:
            w *= 2
        elif k == 2:
            w |= rng.choice([{1: 2}, {1, 2}])
        elif k == 3:
            w &= {1, 2}
        elif k == 4:
            w -= {1, 2}
        elif k == 5:
            w[rng.choice([0, 'a', -1])] = E()
        elif k == 6:
            del w[rng.choice([0, 'a', -1])]
    except Exception:
        pass
    for name in ('foo', 'a', 'maxlen', 'left', 'right'):
        attempt(setattr, sn.v, name, 5)
    if w is not sn.v:
        add(fam, w, 'inplace')
    sn.recheck(ctx, rng, True)


def sweep(ctx):
    """Systematic ancestor/descendant pairs: size x operation on the same vector by several descendants, all kept."""
    sizes = sorted(set(BOUNDARY) | set(s for s in ctx.consts['sizes'] if s < 2200)) + [32767, 32768, 32769, 32800, 33825]
    for n, rng in ctx.items('pairs', sizes):
        l = [E() for _ in range(n)]
        root = P.pvector(l)
        kept = [Snap(root, rng, 'root')]
        tail = ((n - 1) >> 5) << 5 if n else 0
        idx = sorted({i for i in (0, n - 1, tail, tail - 1, 31, 32, 1023, 1024, n // 2) if 0 <= i < n})

        def keep(v, how):
            kept.append(Snap(v, rng, '%s of size %d' % (how, n)))
            ctx.note('keep', how, n)
            return v
        for rnd in range(2):
            a = keep(root.append(E()), 'append')
            b = keep(root.append(E()), 'append2')
            keep(a.append(E()), 'a.append')
            keep(b.extend([E() for _ in range(40)]), 'b.extend')
            keep(root.extend([E() for _ in range(33)]), 'extend')
            keep(root.extend([E()]), 'extend1')
            w = root
            for _ in range(66 if n < 5000 else 34):
                w = w.append(E())
            keep(w, 'append66')
            keep(w.extend([E() for _ in range(5)]), 'append66.extend')
            for i in idx:
                keep(root.set(i, E()), 'set')
                keep(a.set(i, E()), 'a.set')
                e = root.evolver()
                e[i] = E()
                p1 = keep(e.persistent(), 'evolver set')
                e[i] = E()
                e[0] = E()
                p2 = keep(e.persistent(), 'evolver set again')
                e.append(E())
                e[n - 1] = E()
                keep(e.persistent(), 'evolver append')
                e2 = p1.evolver()
                e2[i] = E()
                e2.extend([E() for _ in range(35)])
                keep(e2.persistent(), 'evolver of result')
                for _ in range(40):
                    e2.append(E())
                e2[i] = E()
                e[i] = E()
                keep(e.persistent(), 'first evolver after second')
                keep(e2.persistent(), 'second evolver')
                del e
                keep(p2.append(E()), 'append to result')
                attempt(p2.extend, raising_iter([E()] * 40, 35))
                if n < 5000:
                    keep(root.delete(i), 'delete')
            for s in kept:
                s.recheck(ctx, rng, False)
        gc.collect()
        for s in kept:
            s.recheck(ctx, rng, n < 5000)
