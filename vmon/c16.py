"""C16: create and serialize are inverse and reach every level."""
import pyrsistent as P
from .base import *
from .decl import *
from . import decl as _decl


class Tagger:
    """Class level __serializer__ for a checked collection."""
    n = 0

    def __init__(self, kind):
        Tagger.n += 1
        self.tag = 'coll%d' % Tagger.n
        self.kind = kind

    def function(self):
        tag = self.tag
        if self.kind == 'map':
            return lambda self_, fmt, k, v: (k, (tag, fmt, v))
        return lambda self_, fmt, v: (tag, fmt, v)


def find_serializer(d):
    """The class level serializer in effect: nearest in the (single) chain of ancestors."""
    for a in d.ancestors():
        if getattr(a, 'tagger', None):
            return a.tagger
    return None


def ser(d, x, fmt):
    """Independent model of x.serialize(fmt)."""
    if isinstance(d, Rec):
        out = {}
        for n, v in d.present(x).items():
            f = d.fields[n]
            out[n] = f.ser(fmt, v) if f.ser else ser_any(v, fmt)
        return out
    t = find_serializer(d)
    if d.kind == 'map':
        return {k: (t.tag, fmt, v) for k, v in x.items()} if t else {ser_any(k, fmt): ser_any(v, fmt) for k, v in x.items()}
    one = (lambda v: (t.tag, fmt, v)) if t else (lambda v: ser_any(v, fmt))
    return [one(v) for v in x] if d.kind == 'vec' else {one(v) for v in x}


def ser_any(v, fmt):
    d = REG.get(type(v))
    return ser(d, v, fmt) if d is not None else v


def same_data(a, b):
    """Equal plain data, container types exactly the same, leaves identical or equal of the same type."""
    if type(a) is not type(b):
        return False
    if a is b:
        return True
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(map(same_data, a, b))
    if type(a) is dict:
        return len(a) == len(b) and all(k in a and same_data(a[k], b[k]) for k in b)
    return a == b


def teq(a, b):
    """Equal values of the same types at every level."""
    if type(a) is not type(b):
        return False
    d = REG.get(type(a))
    if d is None:
        return a is b or a == b
    if isinstance(d, Rec):
        x, y = d.present(a), d.present(b)
        return set(x) == set(y) and all(teq(x[n], y[n]) for n in x) and a == b
    if d.kind == 'vec':
        return len(a) == len(b) and all(map(teq, a, b)) and a == b
    if d.kind == 'map':
        return len(a) == len(b) and all(k in a and teq(a[k], b[k]) for k in b) and a == b
    return len(a) == len(b) and all(e in a for e in b) and a == b


def plain(rng, v, ctx, extra=0.0, keep=0.0, count=None):
    """Plain data for v, with extra keys injected into records/classes and some nested values left as they are."""
    d = REG.get(type(v))
    if d is None:
        return v
    if rng.random() < keep:
        return v
    go = lambda y: plain(rng, y, ctx, extra, keep, count)
    if isinstance(d, Rec):
        out = {n: go(y) for n, y in d.present(v).items()}
        if rng.random() < extra:
            count.append(d)
            for k in rng.sample(['nope', 'extra', 'X', 'zz'] + [n for n in FIELD_NAMES if n not in d.fields], rng.choice([1, 2])):
                if k not in d.fields:
                    out[k] = rng.choice([1, None, [1], {'a': 1}])
        ks = list(out)
        rng.shuffle(ks)
        out = {k: out[k] for k in ks}
        return out if rng.random() < 0.8 else P.pmap(out)
    if d.kind == 'vec':
        l = [go(y) for y in v]
        return rng.choice([list, list, list, P.pvector, P.plist])(l)
    if d.kind == 'set':
        l = [go(y) for y in v]
        return rng.choice([list, list, set, P.pvector, P.pset])(l) if all(hashable(y) for y in l) else l
    out = {k: go(y) for k, y in v.items()}
    return out if rng.random() < 0.8 else P.pmap(out)


def hashable(x):
    return attempt(hash, x)[0] == 'ok'


def one_nested(d):
    """At most one checked class among the allowed types of every position (otherwise plain data is ambiguous)."""
    if isinstance(d, Rec):
        return all(len({x.cls for x in f.dom.nested}) <= 1 and (not f.generated or one_nested(f.generated)) for f in d.fields.values())
    return all(len({x.cls for dm in doms for x in dm.nested}) <= 1 for doms in (d.doms, d.kdoms))


def build_pool(rng, ctx, sers):
    pool = []
    for _ in range(rng.choice([1, 2, 3, 4, 5])):
        try:
            if rng.random() < 0.4:
                kind = rng.choice(['vec', 'set', 'map'])
                t = Tagger(kind) if sers and rng.random() < 0.3 else None
                d = a_coll(rng, kind, pool=pool, hash_nested=False, serializer=t.function() if t else None)
                if t:
                    root = d.ancestors()[-1]
                    for a in d.ancestors():
                        if a.serializer is not None:
                            a.tagger = t
            else:
                d = a_rec(rng, pool=pool, factory=False, single=True, gen_nested=True, serializer=sers)
        except Unsat:
            continue
        if one_nested(d):
            pool.append(d)
    return pool


class Fmt:
    def __repr__(self):
        return 'Fmt'


def one_case(ctx, rng):
    sers = rng.random() < 0.5
    pool = build_pool(rng, ctx, sers)
    if not pool:
        return
    d = max(pool[-3:], key=lambda x: x.depth)
    ctx.note('declare', d.kind, d.shape, d.depth, sers, nontrivial=0)
    ctx.seen('depths', d.depth)
    for _ in range(rng.randrange(3, 7)):
        try:
            x = d.value(rng)
        except Unsat:
            continue
        fmt = rng.choice([None, 'json', 0, Fmt(), ''])
        want = ser(d, x, fmt)
        ctx.note('serialize', d.kind, fmt, brief(x, 80))
        got = x.serialize(fmt) if fmt is not None or rng.random() < 0.5 else x.serialize()
        ctx.check_that(same_data(got, want), 'serialize gives something else', value=x, format=fmt, got=got, want=want)
        ctx.counters['serialized'] += 1
        if not sers:
            ctx.counters['roundtrips'] += 1
            back = attempt(lambda: d.cls.create(got))
            ctx.check_that(back[0] == 'ok' and teq(back[1], x), 'create(serialize(x)) differs from x', value=x, data=got, got=back)
        p = plain(rng, x, ctx, keep=rng.choice([0, 0, 0.2]))
        r = attempt(lambda: d.cls.create(p))
        ctx.note('create', d.kind)
        ctx.counters['created'] += 1
        ctx.check_that(r[0] == 'ok' and teq(r[1], x), 'create from plain data differs', data=p, want=x, got=r)
        w = d.audit(r[1])
        ctx.check_that(w is None, 'create made an invalid instance: %s' % w)
        count = []
        p = plain(rng, x, ctx, extra=rng.choice([0.3, 1.0]), count=count)
        if count:
            ctx.note('ignore_extra', d.kind, [c.kind for c in count])
            ctx.counters['extra_keys'] += len(count)
            if any(c is not d for c in count):
                ctx.counters['extra_nested'] += 1
            r = attempt(lambda: d.cls.create(p, ignore_extra=True))
            ctx.check_that(r[0] == 'ok' and teq(r[1], x), 'undeclared keys not ignored at every level', data=p, want=x, got=r)
            r = attempt(lambda: d.cls.create(p) if rng.random() < 0.5 else d.cls.create(p, ignore_extra=False))
            ctx.check_that(r[0] == 'exc' and isinstance(r[1], AttributeError), 'undeclared keys do not raise AttributeError', data=p, got=r)
        else:
            r = attempt(lambda: d.cls.create(p, ignore_extra=True))
            ctx.check_that(r[0] == 'ok' and teq(r[1], x), 'create with ignore_extra differs', data=p, want=x, got=r)
        ctx.check_that(d.cls.create(x) is x and d.cls.create(x, ignore_extra=True) is x, 'create of an instance does not return it')


# checked types as set elements and map keys: created from hashable plain data
def hashed(ctx, rng):
    try:
        e = a_coll(rng, 'vec', nested=False)
    except Unsat:
        return
    S = type(P.CheckedPSet)(cls_name('HS'), (P.CheckedPSet,), {'__type__': e.cls, '__module__': _decl.__name__})
    M = type(P.CheckedPMap)(cls_name('HM'), (P.CheckedPMap,), {'__key_type__': rng.choice([e.cls, (int, e.cls)]), '__value_type__': rng.choice([e.cls, (e.cls, str)]), '__module__': _decl.__name__})
    try:
        vs = [e.value(rng) for _ in range(rng.randrange(0, 5))]
        ws = [e.value(rng) for _ in vs]
    except Unsat:
        return
    ctx.note('hashed', len(vs), vs)
    got = S.create([tuple(v) for v in vs])
    ctx.check_that(type(got) is S and all(type(x) is e.cls for x in got) and got == S(vs), 'set of checked vectors not created from plain data', got=got, want=vs)
    m = M.create({tuple(v): list(w) for v, w in zip(vs, ws)})
    want = {v: w for v, w in zip(vs, ws)}
    ctx.check_that(type(m) is M and len(m) == len(want) and all(type(k) is e.cls and type(v) is e.cls for k, v in m.items()) and m == M(want), 'map with checked keys not created from plain data', got=m, want=want)
    ctx.counters['created'] += 2


class KRec(P.PRecord):
    a = P.field(type=int)
    b = P.field()


class KCls(P.PClass):
    a = P.field(type=int)
    b = P.field()


class KRecSub(KRec):
    inner = P.field(type=KCls)


def hashed_records(ctx, rng):
    """Records and classes as set elements, map keys and map values, from hashable mappings with and without undeclared keys."""
    e = rng.choice([KRec, KCls, KRecSub])
    inside = e is KRecSub
    S = type(P.CheckedPSet)(cls_name('RS'), (P.CheckedPSet,), {'__type__': rng.choice([e, (str, e)]), '__module__': _decl.__name__})
    M = type(P.CheckedPMap)(cls_name('RM'), (P.CheckedPMap,), {'__key_type__': rng.choice([e, (str, e)]), '__value_type__': rng.choice([e, (e, str)]), '__module__': _decl.__name__})
    V = type(P.CheckedPVector)(cls_name('RV'), (P.CheckedPVector,), {'__type__': rng.choice([M, (M, str)]), '__module__': _decl.__name__})

    def data(x):
        d = {'a': x, 'b': rng.choice([None, 'q', (1, 2)])}
        w = e(**d) if not inside else None
        if inside:
            q = {'a': x + 1, 'b': 0}
            w = e(inner=KCls(**q), **d)
            d['inner'] = q
        return d, w
    ds = [data(i) for i in range(rng.randrange(1, 5))]
    dv = [data(10 + i) for i in range(len(ds))]

    def put(d, extra):
        d = dict(d)
        if 'inner' in d:
            d['inner'] = put(d['inner'], extra and rng.random() < 0.5)
        if extra:
            d[rng.choice(['nope', 'zz'])] = 1
        return P.pmap(d)
    for extra in (False, True):
        where = rng.choice(['key', 'value', 'all'])
        ks = [put(d, extra and where != 'value') for d, _ in ds]
        vs = [put(d, extra and where != 'key') for d, _ in dv]
        mp = dict(zip(ks, vs))
        want_s, want_m = {w for _, w in ds}, {w: x for (_, w), (_, x) in zip(ds, dv)}
        ctx.note('hashed records', e.__name__, extra, where, len(ds))
        ctx.counters['created'] += 3
        for what, cls, src, want in (('set', S, ks, want_s), ('map', M, mp, want_m), ('vector of maps', V, [mp], [M(want_m)])):
            has = extra and not (where == 'value' and cls is S)
            r = attempt(lambda: cls.create(src, ignore_extra=True))
            ctx.check_that(r[0] == 'ok' and type(r[1]) is cls and teq(r[1], cls(want)), '%s of %s not created from plain data with ignore_extra' % (what, e.__name__), data=src, want=want, got=r, where=where)
            r = attempt(lambda: cls.create(src))
            if has:
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], AttributeError), 'undeclared keys do not raise AttributeError', data=src, got=r)
            else:
                ctx.check_that(r[0] == 'ok' and type(r[1]) is cls and teq(r[1], cls(want)), '%s of %s not created from plain data' % (what, e.__name__), data=src, want=want, got=r)


def run(ctx):
    for i, rng in ctx.cases('declared', 450):
        unless_unsat(ctx, one_case, rng)
    for i, rng in ctx.cases('hashed', 60):
        unless_unsat(ctx, hashed, rng)
    for i, rng in ctx.cases('hashed records', 60):
        hashed_records(ctx, rng)
