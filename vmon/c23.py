"""C23: immutable() types against the plain tuple of their members."""
import keyword, operator, pickle
import pyrsistent as P
from .base import *

WORDS = ['x', 'y', 'z', 'a', 'b', 'name', 'value', 'id', 'self', 'cls', 'kwargs', 'data', 'x1', 'xx', 'X', 'key', 'fields_to_modify', 'map', 'args',
         'namedtuple', 'other', 'frozen', 'member', 'items', 'a_b', 'long_member_name', 'f', 'i', 'type', 'tuple', 'object', 'super', 'len', 'n']
FROZEN = [w + '_' for w in ('id', 'x', 'y', 'a', 'key', 'set', 'self', 'class', 'z', 'long_name')] + ['x__']


class Bad(Exception):
    pass


def expect_attr_error(ctx, f, what):
    r = attempt(f)
    ctx.counters['rejected'] += 1
    ctx.check_that(r[0] == 'exc' and isinstance(r[1], AttributeError), what + ' does not raise AttributeError', got=r)


def members(rng, ctx):
    k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 12, 30])
    pool = WORDS + FROZEN + ['m%d' % i for i in range(40)]
    pf = rng.choice([0, 0.3, 0.3, 1])
    out = []
    while len(out) < k:
        w = rng.choice(FROZEN) if rng.random() < pf else rng.choice(pool)
        if rng.random() < 0.1 and out:
            w = out[-1] + rng.choice(['_', 'q', '2'])        # names that contain each other
        if w not in out:
            out.append(w)
        elif pf == 1 and len(out) >= len(FROZEN):
            pf = 0.3
    return out


def spec_of(rng, ms):
    r = rng.randrange(7)
    if r == 0:
        return ', '.join(ms), 'comma'
    if r == 1:
        return ' '.join(ms), 'space'
    if r == 2:
        return ','.join(ms), 'tight'
    if r == 3:
        if rng.random() < 0.3:
            return ' ,\n'.join(ms) + rng.choice(['', ' ', ',']), 'mixed'
        return ''.join(m + rng.choice([' ', ',', ', ', '\t', '\n  ', ' , ', '  ']) for m in ms), 'mixed'
    if r == 4:
        return tuple(ms), 'tuple'
    return list(ms), 'list'


def val(rng):
    return rng.choice([0, 1, 2, -1, 'a', '', None, True, 1.5, (1, 2), frozenset([1]), 'ImmutableX', P.v(1, 2), P.m(a=1)]) if rng.random() < 0.7 else rng.randrange(100)


def check_instance(ctx, rng, cls, name, ms, p, t, log=None):
    t = tuple(t)
    ctx.counters['instances'] += 1
    ctx.check_that(type(p) is cls, 'wrong class', got=type(p), want=cls)
    ctx.check_that(len(p) == len(t) and all(a is b for a, b in zip(p, t)), 'members are not the given objects in order', got=tuple(p), want=t)
    for i, m in enumerate(ms):
        ctx.check_that(getattr(p, m) is t[i] and p[i] is t[i] and p[i - len(ms)] is t[i], 'member access wrong', member=m)
    ctx.check_that(p == t and t == p and not (p != t) and tuple(p) == t, 'not equal to the tuple of its members', value=p, want=t)
    ctx.check_that(hash(p) == hash(t), 'hash differs from the tuple of its members', value=p)
    ctx.check_that(p[:] == t and list(p) == list(t) and p[::-1] == t[::-1], 'sequence behaviour wrong')
    ctx.check_that(repr(p) == name + '(' + ', '.join('%s=%r' % mv for mv in zip(ms, t)) + ')', 'repr wrong', got=repr(p))


def orders(ctx, p, q, tp, tq):
    for op in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
        a, b = attempt(op, p, q), attempt(op, tp, tq)
        ctx.counters['comparisons'] += 1
        ctx.check_that(a[0] == b[0] and (a[0] == 'exc' or bool(a[1]) == bool(b[1])), 'compares unlike the tuples', op=op.__name__, left=tp, right=tq, got=a, want=b)


def a_type(ctx, rng):
    ms = members(rng, ctx)
    spec, how = spec_of(rng, ms)
    ctx.seen('spec_forms', how)
    ctx.seen('member_counts', len(ms))
    name = rng.choice(['Immutable', 'Point', 'P', 'Thing2', '_Hidden'])
    given = list(spec) if isinstance(spec, list) else None
    base = P.immutable(spec, name) if rng.random() < 0.5 else P.immutable(members=spec, name=name) if name != 'Immutable' else P.immutable(spec)
    if given is not None:
        ctx.check_that(spec == given, 'the member list passed in was changed', got=spec, want=given)
    kind = rng.choice(['plain', 'plain', 'sub', 'subsub', 'validated', 'slotless'])
    ctx.seen('class_kinds', kind)
    calls = []
    cls = base
    if kind in ('sub', 'subsub'):
        class Sub(base):
            __slots__ = ()

            def total(self):
                return len(self)
        cls, name = Sub, 'Sub'
        if kind == 'subsub':
            class SubSub(Sub):
                __slots__ = ()
            cls, name = SubSub, 'SubSub'
    elif kind == 'slotless':
        class Loose(base):
            pass
        cls, name = Loose, 'Loose'
    elif kind == 'validated':
        class Valid(base):
            __slots__ = ()

            def __new__(cls_, *a, **kw):
                r = super(Valid, cls_).__new__(cls_, *a, **kw)
                calls.append(tuple(r))
                if any(isinstance(x, str) and x == 'REJECT' for x in r):
                    raise Bad()
                return r
        cls, name = Valid, 'Valid'
    if isinstance(spec, list) and rng.random() < 0.5:
        spec.append('late')
    ctx.note('declare', kind, how, ms, nontrivial=0)
    return cls, name, ms, kind, calls


def run(ctx):
    for i, rng in ctx.cases('types', 1200):
        cls, name, ms, kind, calls = a_type(ctx, rng)
        settable = [m for m in ms if not m.endswith('_')]
        frozen = [m for m in ms if m.endswith('_')]
        pool = []
        t = [val(rng) for _ in ms]
        safe = not ({'_cls', 'cls_'} & set(ms))
        p = cls(*t) if rng.random() < 0.5 or not safe else cls(**dict(zip(ms, t)))
        check_instance(ctx, rng, cls, name, ms, p, t)
        pool.append((p, t))
        for _ in range(rng.randrange(5, 20)):
            p, t = rng.choice(pool)
            r = rng.random()
            if r < 0.1:
                ctx.note('set()', nontrivial=1)
                ctx.check_that(p.set() is p, 'set() without arguments does not return the same object')
            elif r < 0.25:
                bad = rng.choice([m for m in WORDS + ['set', 'count', 'index', '_fields', 'id_', 'late', '__class__', 'm99', 'x_'] if m not in ms])
                kw = {bad: 1}
                for m in settable:
                    if rng.random() < 0.5:
                        kw[m] = val(rng)
                ctx.note('set unknown', sorted(kw))
                expect_attr_error(ctx, lambda: p.set(**kw), 'setting an unknown member')
            elif r < 0.45 and frozen:
                kw = {m: rng.choice([val(rng), t[ms.index(m)]]) for m in rng.sample(frozen, rng.randrange(1, len(frozen) + 1))}
                for m in settable:
                    if rng.random() < 0.4:
                        kw[m] = val(rng)
                ctx.note('set frozen', sorted(kw))
                expect_attr_error(ctx, lambda: p.set(**kw), 'setting a frozen member')
            elif r < 0.5 and ms:
                m = rng.choice(ms)
                ctx.note('assign', m)
                expect_attr_error(ctx, lambda: setattr(p, m, 3), 'assigning a member')
                expect_attr_error(ctx, lambda: delattr(p, m), 'deleting a member')
            elif r < 0.58 and kind == 'validated' and settable:
                m = rng.choice(settable)
                ctx.note('rejected by validation', m)
                q = attempt(lambda: p.set(**{m: 'REJECT'}))
                ctx.check_that(q[0] == 'exc' and isinstance(q[1], Bad), 'set() bypasses the validation of the subclass', got=q)
            elif settable:
                ks = rng.sample(settable, rng.randrange(1, len(settable) + 1))
                if rng.random() < 0.15:
                    ks = list(settable)
                if rng.random() < 0.3:
                    ks = ks[:1]
                kw = {m: (t[ms.index(m)] if rng.random() < 0.1 else val(rng)) for m in ks}
                t2 = list(t)
                for m in ks:
                    t2[ms.index(m)] = kw[m]
                ctx.note('set', ks, [kw[k] for k in ks])
                before = dict(kw)
                calls.clear()
                q = p.set(**kw)
                ctx.check_that(kw == before, 'the keyword mapping passed in was changed')
                check_instance(ctx, rng, cls, name, ms, q, t2)
                if kind == 'validated':
                    ctx.check_that(len(calls) == 1, 'set() does not run the validation of the subclass exactly once', calls=len(calls))
                orders(ctx, p, q, tuple(t), tuple(t2))
                pool.append((q, t2))
        for p, t in pool:
            check_instance(ctx, rng, cls, name, ms, p, t)
        for _ in range(4):
            (p, t), (q, u) = rng.choice(pool), rng.choice(pool)
            orders(ctx, p, q, tuple(t), tuple(u))
            orders(ctx, p, tuple(u), tuple(t), tuple(u))
        n = len(ms)
        for wrong in (n + 1, n - 1):
            if wrong >= 0 and kind != 'validated':
                r = attempt(lambda: cls(*range(wrong)))
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], TypeError), 'wrong number of members accepted', got=r)
