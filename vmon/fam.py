"""Collection families: how to build a value with a model, generate operations, audit a value against its model."""
from .base import *
from .ops import *


def same(a, b):
    """a and b are the same element: identical, or tuples made by a merge function whose parts are."""
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def obs_same(a, b):
    """Two observations agree: same identity, or equal plain data of the same type."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(obs_same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, str, bytes, frozenset, bool)):
        return a == b
    return False


class Family:
    name = None
    keyed = False

    def universe(self, rng, ctx):
        return None

    def audit(self, ctx, v, m, rng, full=True):
        raise NotImplementedError

    def adopt(self, v, m):
        return m


class Vec(Family):
    name = 'vec'

    def start(self, rng, ctx, P, uni=None):
        l = values(rng, size(rng, ctx, small=0.6), ctx)
        v, how = build_vec(rng, ctx, P, l)
        ctx.seen('sizes', len(l))
        ctx.seen('routes', how)
        return v, l, how

    def gen(self, rng, ctx, P, m, uni, pool):
        return gen_vec(rng, ctx, P, m, pool)

    def audit(self, ctx, v, m, rng, full=True):
        n = len(m)
        ctx.counters['audits'] += 1
        ctx.check_that(len(v) == n, 'wrong length', got=len(v), want=n)
        if n <= 40:
            idx = range(-n, n)
        elif full:
            idx = list(range(0, n, 1 if n < 300 else 7)) + [-1, -n, -2, -32, -33]
        else:
            idx = [rng.randrange(-n, n) for _ in range(12)] + [0, n - 1]
        for i in idx:
            if -n <= i < n and not same(v[i], m[i]):
                ctx.fail('wrong element by index', index=i, got=v[i], want=m[i], size=n)
        got = list(v)
        if not (len(got) == n and all(map(same, got, m))):
            bad = next((i for i, (a, b) in enumerate(zip(got, m)) if not same(a, b)), min(n, len(got)))
            ctx.fail('iteration yields wrong elements', first_bad_index=bad, size=n, iterated=len(got), got=got[bad:bad + 4], want=m[bad:bad + 4])
        got = v.tolist()
        ctx.check_that(type(got) is list and len(got) == n and all(map(same, got, m)), 'tolist() wrong', size=n)
        for bad in (n, n + 1, -n - 1, n + 31, n + 32):
            try:
                v[bad]
            except IndexError:
                continue
            ctx.fail('out of range index accepted', index=bad, size=n)
        ctx.seen('sizes', n)

    def adopt(self, v, m):
        return m


class Map(Family):
    name = 'map'
    keyed = True

    def universe(self, rng, ctx):
        return key_universe(rng, ctx, rng.choice([3, 6, 12, 25, 25, 60, 60, 150])) or [0]

    def start(self, rng, ctx, P, uni):
        d = {}
        for k in uni:
            if rng.random() < 0.5:
                d[k] = value(rng, ctx)
        v, how = build_map(rng, ctx, P, d)
        ctx.seen('routes', how)
        return v, d, how

    def gen(self, rng, ctx, P, m, uni, pool):
        return gen_map(rng, ctx, P, m, uni, pool)

    def audit(self, ctx, v, m, rng, full=True):
        ctx.counters['audits'] += 1
        ctx.check_that(len(v) == len(m), 'wrong length', got=len(v), want=len(m), content=sorted(map(repr, m))[:40])
        items = list(v.iteritems())
        ctx.check_that(len(items) == len(m), 'iteration does not yield every item exactly once', got=len(items), want=len(m), items=items)
        for a, b in items:
            if a not in m or not same(b, m[a]):
                ctx.fail('iteration yields a wrong item', key=a, got=b, want=m.get(a, 'ABSENT'))
        got = dict(items)
        ctx.check_that(len(got) == len(m), 'a key is yielded twice', items=items)
        have = {k: k for k in got}
        ks = list(m)
        if not full and len(ks) > 20:
            ks = rng.sample(ks, 20)
        for k in ks:
            ctx.check_that(have.get(k) is k, 'the key object kept is not the one first inserted', key=k)
            ctx.check_that(k in v, 'key not found by "in"', key=k)
            r = attempt(v.__getitem__, k)
            ctx.check_that(r[0] == 'ok' and same(r[1], m[k]), 'lookup wrong', key=k, got=r, want=m[k])

    def adopt(self, v, m):
        for a, b in v.iteritems():
            if m[a] is not b:
                m[a] = b
        return m

    def absent(self, ctx, v, m, uni):
        for k in uni:
            if k not in m:
                ctx.check_that(k not in v and v.get(k, ctx) is ctx, 'absent key found', key=k)
                r = attempt(v.__getitem__, k)
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], KeyError), 'no KeyError for absent key', key=k, got=r)


class Set(Map):
    name = 'set'

    def start(self, rng, ctx, P, uni):
        xs = [k for k in uni if rng.random() < 0.5]
        rng.shuffle(xs)
        d = {k: k for k in xs}
        r = rng.random()
        if r < 0.3:
            v, how = P.pset(iterable_of(rng, xs, None, P, True)[0]), 'bulk'
        elif r < 0.5:
            v, how = P.pset(xs, pre_size=rng.choice([1, 2, 3, 8, 31, 64])), 'presized'
        elif r < 0.7:
            v, how = P.pset(), 'add'
            for x in xs:
                v = v.add(x)
        elif r < 0.85:
            v, how = P.s(*xs), 's()'
        elif r < 0.92:
            v, how = P.pmap({x: None for x in xs}).keys(), 'keys()'
        elif r < 0.96:
            # the keys of a checked map, which itself would take neither other keys nor other values
            cm = type('KM', (P.CheckedPMap,), {'__key_type__': tuple({type(x) for x in xs}) or int, '__value_type__': type(None)})
            v, how = cm({x: None for x in xs}).keys(), 'keys() of a checked map'
        else:
            d = {k: k for k in 'abc' if rng.random() < 0.6}
            v, how = type('KR', (P.PRecord,), {k: P.field() for k in 'abc'})(**{k: 1 for k in d}).keys(), 'keys() of a record'
        ctx.seen('routes', how)
        return v, d, how

    def gen(self, rng, ctx, P, m, uni, pool):
        return gen_set(rng, ctx, P, m, uni, pool)

    def audit(self, ctx, v, m, rng, full=True):
        ctx.counters['audits'] += 1
        ctx.check_that(len(v) == len(m), 'wrong length', got=len(v), want=len(m), content=list(m)[:40])
        items = list(v)
        ctx.check_that(len(items) == len(m), 'iteration does not yield every element exactly once', items=items)
        have = {}
        for a in items:
            ctx.check_that(a in m and a not in have, 'iteration yields a wrong or repeated element', element=a)
            have[a] = a
        for k, kept in m.items():
            ctx.check_that(k in v, 'element not found by "in"', element=k)
            if kept is not None:
                ctx.check_that(have[k] is kept, 'the element kept is not the one first inserted', element=k)

    def adopt(self, v, m):
        for a in v:
            m[a] = a
        return m

    def absent(self, ctx, v, m, uni):
        for k in uni:
            if k not in m:
                ctx.check_that(k not in v, 'absent element found', element=k)
                r = attempt(v.remove, k)
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], KeyError), 'no KeyError removing an absent element', element=k, got=r)
                ctx.check_that(v.discard(k) is v, 'discarding an absent element does not return the same set', element=k)


class Bag(Map):
    name = 'bag'

    def start(self, rng, ctx, P, uni):
        xs = [k for k in uni if rng.random() < 0.5 for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        rng.shuffle(xs)
        d = {}
        for x in xs:
            d[x] = d.get(x, 0) + 1
        r = rng.random()
        if r < 0.4:
            v, how = P.pbag(iterable_of(rng, xs, None, P, True)[0]), 'bulk'
        elif r < 0.7:
            v, how = P.b(*xs), 'b()'
        else:
            v, how = P.pbag([]), 'add'
            for x in xs:
                v = v.add(x)
        ctx.seen('routes', how)
        return v, d, how

    def gen(self, rng, ctx, P, m, uni, pool):
        return gen_bag(rng, ctx, P, m, uni, pool)

    def audit(self, ctx, v, m, rng, full=True):
        ctx.counters['audits'] += 1
        ctx.check_that(len(v) == sum(m.values()), 'wrong length', got=len(v), want=sum(m.values()), content=m)
        seen = {}
        for a in v:
            seen[a] = seen.get(a, 0) + 1
        ctx.check_that(seen == m, 'iteration yields wrong multiplicities', got=seen, want=m)
        for k, c in m.items():
            ctx.check_that(v.count(k) == c and k in v, 'wrong multiplicity', element=k, got=v.count(k), want=c)

    def adopt(self, v, m):
        return m

    def absent(self, ctx, v, m, uni):
        for k in uni:
            if k not in m:
                ctx.check_that(k not in v and v.count(k) == 0, 'absent element found', element=k, count=v.count(k))
                r = attempt(v.remove, k)
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], KeyError), 'no KeyError removing an absent element', element=k, got=r)


class PL(Family):
    name = 'plist'

    def start(self, rng, ctx, P, uni=None):
        l = values(rng, size(rng, ctx, small=0.9, cap=400), ctx)
        r = rng.random()
        if r < 0.4:
            v, how = P.plist(iterable_of(rng, l, None, P)[0]), 'bulk'
        elif r < 0.6:
            v, how = P.l(*l), 'l()'
        elif r < 0.8:
            v, how = P.plist(iterable_of(rng, l[::-1], None, P)[0], reverse=True), 'reverse'
        else:
            v, how = P.plist(), 'cons'
            for x in reversed(l):
                v = v.cons(x)
        ctx.seen('routes', how)
        return v, l, how

    def gen(self, rng, ctx, P, m, uni, pool):
        return gen_plist(rng, ctx, P, m, pool)

    def audit(self, ctx, v, m, rng, full=True):
        ctx.counters['audits'] += 1
        n = len(m)
        ctx.check_that(len(v) == n, 'wrong length', got=len(v), want=n)
        got = list(v)
        ctx.check_that(len(got) == n and all(map(same, got, m)), 'iteration yields wrong elements', got=got, want=m)
        for i in ([0, -1, n // 2, n - 1, -n] if n else []):
            ctx.check_that(same(v[i], m[i]), 'wrong element by index', index=i, got=v[i], want=m[i])
        ctx.check_that(bool(v) == bool(m), 'truth value wrong')
        if n:
            ctx.check_that(same(v.first, m[0]), 'first wrong', got=v.first, want=m[0])
            if rng.random() < 0.2 or n < 20:
                w, i = v, 0
                while i < n:
                    ctx.check_that(same(w.first, m[i]), 'walking rest gives wrong elements', index=i)
                    w, i = w.rest, i + 1
                ctx.check_that(not w and len(w) == 0, 'rest chain too long')
        for bad in (n, n + 1, -n - 1):
            r = attempt(v.__getitem__, bad)
            ctx.check_that(r[0] == 'exc' and isinstance(r[1], IndexError), 'out of range index accepted', index=bad, got=r)


class DQ(Family):
    name = 'deque'

    def start(self, rng, ctx, P, uni=None):
        l = values(rng, size(rng, ctx, small=0.93, cap=300), ctx)
        n = len(l)
        ml = rng.choice([None, None, None, n, n + 1, n + 5, max(n - 1, 0), 0, 1, 2, 3, 10])
        ctx.seen('maxlens', ml if ml is None or ml < 12 else 'n+-')
        want = MD(l if ml is None or n <= ml else l[n - ml:], ml)
        r = rng.random()
        if r < 0.4:
            v, how = P.pdeque(iterable_of(rng, l, None, P)[0], maxlen=ml), 'bulk'
        elif r < 0.6:
            v, how = P.pdeque(maxlen=ml).extend(l), 'extend'
        elif r < 0.8:
            v, how = P.pdeque([], ml), 'append'
            for x in l:
                v = v.append(x)
        elif ml is None:
            v, how = P.dq(*l), 'dq()'
        else:
            v, how = P.pdeque(maxlen=ml), 'appendleft'
            for x in reversed(want):
                v = v.appendleft(x)
        ctx.seen('routes', how)
        return v, want, how

    def gen(self, rng, ctx, P, m, uni, pool):
        return gen_deque(rng, ctx, P, m, pool)

    def audit(self, ctx, v, m, rng, full=True):
        ctx.counters['audits'] += 1
        n = len(m)
        ctx.check_that(v.maxlen == m.maxlen, 'maxlen not kept', got=v.maxlen, want=m.maxlen)
        ctx.check_that(len(v) == n, 'wrong length', got=len(v), want=n, model=m)
        got = list(v)
        ctx.check_that(len(got) == n and all(map(same, got, m)), 'iteration yields wrong elements', got=got, want=list(m))
        ctx.check_that(bool(v) == bool(m), 'truth value wrong')
        for i in ([0, -1, n // 2, n - 1, -n, rng.randrange(n)] if n else []):
            ctx.check_that(same(v[i], list.__getitem__(m, i)), 'wrong element by index', index=i, got=v[i], want=m[i])
        if n:
            ctx.check_that(same(v.left, m[0]) and same(v.right, m[-1]), 'left/right wrong', got=(v.left, v.right), want=(m[0], m[-1]))
        else:
            for side in ('left', 'right'):
                r = attempt(getattr, v, side)
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], IndexError), side + ' of an empty deque does not raise IndexError', got=r)
        ctx.check_that(list(reversed(v))[::-1] == got or any(x is not y for x, y in zip(list(reversed(v))[::-1], got)) is False,
                       'reversed() wrong', got=list(reversed(v)), want=got[::-1])
        for bad in (n, n + 1, -n - 1):
            r = attempt(v.__getitem__, bad)
            ctx.check_that(r[0] == 'exc' and isinstance(r[1], IndexError), 'out of range index accepted', index=bad, got=r)


FAMS = {'vec': Vec(), 'map': Map(), 'set': Set(), 'bag': Bag(), 'plist': PL(), 'deque': DQ()}


def apply_both(ctx, F, op, v, m):
    """-> None if both fail alike or it is an observation, else (value, model)"""
    r, q = attempt(op.f, v), attempt(op.m, m)
    ctx.counters['events'] += 1
    if q[0] == 'exc':
        ctx.counters['failing_ops'] += 1
        if r[0] != 'exc':
            ctx.fail('%s.%s(%s): no exception where %s is specified' % (F.name, op.name, brief(op.desc), exc_kind(q[1])), got=r[1], model=m)
        if exc_kind(r[1]) != exc_kind(q[1]):
            ctx.fail('%s.%s(%s): wrong kind of exception' % (F.name, op.name, brief(op.desc)), got=r[1], want=q[1], model=m)
        return None
    if r[0] == 'exc':
        ctx.fail('%s.%s(%s): unexpected exception' % (F.name, op.name, brief(op.desc)), got='%s: %s' % (type(r[1]).__name__, r[1]), want=q[1], model=m)
    r, q = r[1], q[1]
    if op.kind == 'newlog':
        (r, lr), (q, lq) = r, q
        ctx.check_that(obs_same(lr, lq), '%s.%s: evolver steps observed differently' % (F.name, op.name), script=op.desc, got=lr, want=lq, model=m)
    elif op.kind == 'obs':
        ctx.check_that(obs_same(r, q), '%s.%s(%s): wrong result' % (F.name, op.name, brief(op.desc)), got=r, want=q, model=m)
        return None
    return r, q


def history(ctx, rng, P, F, steps, poolmax=6):
    uni = F.universe(rng, ctx)
    v, m, how = F.start(rng, ctx, P, uni)
    ctx.note(F.name + '.build', how, len(m), nontrivial=0)
    F.audit(ctx, v, m, rng)
    pool = [(v, m)]
    for _ in range(steps):
        v, m = pool[-1] if rng.random() < 0.6 else rng.choice(pool)
        op = F.gen(rng, ctx, P, m, uni, pool)
        ctx.note(F.name + '.' + op.name, len(m), op.desc)
        new = apply_both(ctx, F, op, v, m)
        if new is None:
            continue
        r, q = new
        F.audit(ctx, r, q, rng)
        ctx.check_that(isinstance(r, type(v)) or isinstance(v, type(r)) or F.name == 'plist', 'result has a different type', got=type(r), want=type(v))
        q = F.adopt(r, q)
        if len(pool) >= poolmax:
            pool.pop(rng.randrange(len(pool) - 1))
        pool.append((r, q))
    for v, m in pool:
        F.audit(ctx, v, m, rng)
        if uni is not None:
            F.absent(ctx, v, m, uni)
