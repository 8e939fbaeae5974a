"""Operation generators.  gen_X(rng, ctx, P, model, pool) -> Op with
  f(value)  the operation on the persistent value
  m(model)  the same operation on the plain Python model
kind 'new': the result is a persistent value of the same family (model result = the model of it)
kind 'obs': the result is an observation
kind 'pair': both results are tuples of (value, model) families
"""
import copy
from collections import ChainMap, Counter, OrderedDict, UserDict, deque
from types import MappingProxyType
from .base import *


class Op:
    __slots__ = ('name', 'desc', 'f', 'm', 'kind')

    def __init__(self, name, desc, f, m, kind='new'):
        self.name, self.desc, self.f, self.m, self.kind = name, desc, f, m, kind


def evolve_op(script, model_copy):
    """Run a script of evolver operations; failing steps are part of the observation."""
    def fe(v):
        e, log = v.evolver(), []
        for s in script:
            k, r = attempt(s.f, e)
            log.append(exc_kind(r) if k == 'exc' else r if s.kind == 'obs' else 'ok')
        return e.persistent(), log

    def me(m):
        m, log = model_copy(m), []
        for s in script:
            k, r = attempt(s.m, m)
            log.append(exc_kind(r) if k == 'exc' else r if s.kind == 'obs' else 'ok')
        return m, log
    return Op('evolve', [(s.name, s.desc) for s in script[:6]], fe, me, 'newlog')


# ------------------------------------------------------------------ vectors
def vec_set(l, i, x):
    l = list(l)
    if i < 0:
        i += len(l)
    if i == len(l):
        l.append(x)
    elif 0 <= i < len(l):
        l[i] = x
    else:
        raise IndexError(i)
    return l


def grow_count(rng, n):
    """How many elements to add to a vector of n: often exactly up to / across a node boundary."""
    r = rng.random()
    if r < 0.5:
        return rng.randrange(0, 5)
    for b in (32, 64, 96, 128, 1024, 1056, 1057, 1088, 1089, 2048, 2080):
        if b >= n and b - n < 1200 and rng.random() < 0.45:
            return max(0, b - n + rng.choice([-1, 0, 1, 2]))
    return rng.randrange(0, 80)


def build_vec(rng, ctx, P, l):
    """Reach the content l by one of several histories."""
    k = rng.randrange(7)
    n = len(l)
    if k == 0 or n > 5000:
        it, _ = iterable_of(rng, l)
        return P.pvector(it), 'bulk'
    if k == 1:
        v = P.pvector()
        for x in l:
            v = v.append(x)
        return v, 'append'
    if k == 2:
        v, i = P.pvector(), 0
        while i < n:
            c = rng.choice([1, 3, 31, 32, 33, 64])
            v = v.extend(l[i:i + c])
            i += c
        return v, 'chunks'
    if k == 3:
        e = P.pvector(l[:n // 2]).evolver()
        for x in l[n // 2:]:
            e.append(x)
        return e.persistent(), 'evolver'
    if k == 4:
        junk = [None] * rng.randrange(0, 40)
        v = P.pvector(l + junk)
        return v[:n], 'slice'
    if k == 5:
        v = P.pvector([0] * n)
        e = v.evolver()
        idx = list(range(n))
        rng.shuffle(idx)
        for i in idx:
            e[i] = l[i]
        return e.persistent(), 'evolver-set'
    return P.v(*l) if n < 5000 else P.pvector(l), 'v()'


def gen_vec(rng, ctx, P, l, pool=(), maxlen=2600):
    n = len(l)
    if rng.random() < 0.02:
        return foreign(rng, 'vec')
    k = rng.choice(['append', 'append', 'extend', 'extend', 'add', 'mul', 'set', 'set', 'set', 'mset', 'delete', 'delete2', 'remove',
                    'slice', 'slice', 'get', 'get', 'index', 'count', 'contains', 'iter', 'repr', 'hash', 'cmp', 'evolve', 'evolve',
                    'len', 'reversed', 'tolist', 'bool', 'rmul', 'partial_iter'])
    if n > maxlen and k in ('extend', 'add', 'mul', 'rmul', 'repr'):
        k = 'slice'
    if k == 'append':
        x = value(rng, ctx)
        return Op(k, x, lambda v: v.append(x), lambda l: l + [x])
    if k in ('extend', 'add'):
        if pool and rng.random() < 0.2:
            ov, ol = rng.choice(pool)
            if len(ol) + n < maxlen + 3000:
                return Op(k, 'other vector(%d)' % len(ol), (lambda v: v.extend(ov)) if k == 'extend' else (lambda v: v + ov), lambda l: l + ol)
        items = values(rng, grow_count(rng, n), ctx)
        salt = rng.random()

        def mk():
            return iterable_of(random.Random(salt), items, P.pvector, P)[0]
        d = iterable_of(random.Random(salt), items, P.pvector, P)[1]
        if k == 'extend':
            return Op(k, '%d by %s' % (len(items), d), lambda v: v.extend(mk()), lambda l: l + items)
        return Op(k, '%d by %s' % (len(items), d), lambda v: v + mk(), lambda l: l + items)
    if k in ('mul', 'rmul'):
        t = rng.choice([-1, 0, 1, 2, 3, 5] + ([33, 34] if n < 40 else []))
        return Op(k, t, (lambda v: v * t) if k == 'mul' else (lambda v: t * v), lambda l: l * t)
    if k == 'set':
        i, x = index(rng, n, ctx), value(rng, ctx)
        return Op(k, (i, x), lambda v: v.set(i, x), lambda l: vec_set(l, i, x))
    if k == 'mset':
        args = []
        m = rng.choice([0, 1, 2, 3, 5, 20])
        for _ in range(m):
            args += [rng.randrange(-n, n + 1) if rng.random() < 0.9 and n else index(rng, n, ctx), value(rng, ctx)]
        if rng.random() < 0.05:
            args = args + [0]

        def mm(l):
            if len(args) % 2:
                raise TypeError()
            for j in range(0, len(args), 2):
                l = vec_set(l, args[j], args[j + 1])
            return l
        return Op(k, [a for a in args[::2]], lambda v: v.mset(*args), mm)
    if k == 'delete':
        i = index(rng, n, ctx)
        def md(l):
            l = list(l)
            del l[i]
            return l
        return Op(k, i, lambda v: v.delete(i), md)
    if k == 'delete2':
        i, j = rng.choice([0, 1, index(rng, n)]), index(rng, n, ctx)
        if rng.random() < 0.05:
            j = None
        def md2(l):
            l = list(l)
            if j is None:
                del l[i]
            else:
                del l[i:j]
            return l
        return Op(k, (i, j), lambda v: v.delete(i, j), md2)
    if k == 'remove':
        x = rng.choice(l) if l and rng.random() < 0.8 else value(rng, ctx)
        def mr(l):
            l = list(l)
            l.remove(x)
            return l
        return Op(k, x, lambda v: v.remove(x), mr)
    if k == 'slice':
        s = a_slice(rng, n)
        return Op(k, s, lambda v: v[s], lambda l: l[s])
    if k == 'get':
        i = index(rng, n, ctx)
        return Op(k, i, lambda v: v[i], lambda l: l[i], 'obs')
    if k == 'index':
        x = rng.choice(l) if l and rng.random() < 0.8 else value(rng, ctx)
        args = (x,) + tuple(index(rng, n) for _ in range(rng.choice([0, 0, 1, 2])))
        return Op(k, args, lambda v: v.index(*args), lambda l: l.index(*args), 'obs')
    if k == 'count':
        x = rng.choice(l) if l and rng.random() < 0.8 else value(rng, ctx)
        return Op(k, x, lambda v: v.count(x), lambda l: l.count(x), 'obs')
    if k == 'contains':
        x = rng.choice(l) if l and rng.random() < 0.6 else value(rng, ctx)
        return Op(k, x, lambda v: x in v, lambda l: x in l, 'obs')
    if k == 'iter':
        return Op(k, '', lambda v: list(v), list, 'obs')
    if k == 'partial_iter':
        c = rng.randrange(0, n + 2)

        def part(v):
            it = iter(v)
            out = []
            for _ in range(c):
                try:
                    out.append(next(it))
                except StopIteration:
                    out.append(StopIteration)
            return out
        return Op(k, c, part, part, 'obs')
    if k == 'reversed':
        return Op(k, '', lambda v: list(reversed(v)), lambda l: l[::-1], 'obs')
    if k == 'tolist':
        return Op(k, '', lambda v: v.tolist(), list, 'obs')
    if k == 'repr':
        return Op(k, '', lambda v: (repr(v), str(v)), lambda l: ('pvector(%r)' % (l,),) * 2, 'obs')
    if k == 'hash':
        return Op(k, '', lambda v: hash(v) == hash(P.pvector(list(v))), lambda l: hash(tuple(l)) is not None, 'obs')
    if k == 'len':
        return Op(k, '', len, len, 'obs')
    if k == 'bool':
        return Op(k, '', bool, bool, 'obs')
    if k == 'cmp':
        if rng.random() < 0.4:
            return _relative_cmp(rng, n, 'vec', ['eq', 'ne', 'lt', 'le', 'gt', 'ge'])
        if pool and rng.random() < 0.5:
            ov, ol = rng.choice(pool)
        else:
            ol = list(l)
            if ol and rng.random() < 0.6:
                ol[rng.randrange(len(ol))] = rng.choice([0, 1, 2, None])
            if rng.random() < 0.3:
                ol = ol[:rng.randrange(len(ol) + 1)]
            ov = P.pvector(ol) if rng.random() < 0.7 else list(ol)
        o = rng.choice(['eq', 'ne', 'lt', 'le', 'gt', 'ge'])
        import operator
        g = getattr(operator, o)
        return Op('cmp', o, lambda v: g(v, ov), lambda l: g(l, ol), 'obs')
    # evolve
    script = [gen_vec_evolver(rng, ctx, n) for _ in range(rng.choice([0, 1, 2, 3, 5, 10]))]

    return evolve_op(script, list)


def gen_vec_evolver(rng, ctx, n):
    """Mutating operation on a vector evolver; m mutates a list in place."""
    k = rng.choice(['set', 'set', 'set', 'item', 'append', 'append', 'extend', 'del', 'delete', 'read', 'len', 'chain'])
    if k in ('set', 'item'):
        i, x = index(rng, n, ctx), value(rng, ctx)

        def m(l):
            l[:] = vec_set(l, i, x)
        if k == 'set':
            return Op(k, (i, x), lambda e: e.set(i, x), m)

        def f(e):
            e[i] = x
        return Op(k, (i, x), f, m)
    if k == 'append':
        x = value(rng, ctx)
        return Op(k, x, lambda e: e.append(x), lambda l: l.append(x))
    if k == 'extend':
        xs = values(rng, rng.choice([0, 1, 2, 31, 32, 33, 5]), ctx)
        return Op(k, len(xs), lambda e: e.extend(xs), lambda l: l.extend(xs))
    if k in ('del', 'delete'):
        i = index(rng, n, ctx)

        def m(l):
            del l[i]
        if k == 'delete':
            return Op(k, i, lambda e: e.delete(i), m)

        def f(e):
            del e[i]
        return Op(k, i, f, m)
    if k == 'read':
        i = index(rng, n, ctx)
        return Op(k, i, lambda e: e[i], lambda l: l[i], 'obs')
    if k == 'chain':
        x, y = value(rng, ctx), value(rng, ctx)

        def m(l):
            l.append(x)
            l.append(y)
        return Op(k, '', lambda e: e.append(x).append(y), m)
    return Op(k, '', len, len, 'obs')


# ------------------------------------------------------------------ maps
def build_map(rng, ctx, P, d):
    """Reach the content of dict d by one of several histories."""
    k = rng.randrange(7)
    items = list(d.items())
    if k == 0:
        return P.pmap(dict(items)), 'bulk'
    if k == 1:
        return P.pmap(dict(items), pre_size=rng.choice([1, 2, 3, 7, 8, 16, 31, 33, 64, 200])), 'presized'
    if k == 2:
        m = P.pmap(pre_size=rng.choice([0, 0, 1, 2, 5]))
        for a, b in items:
            m = m.set(a, b)
        return m, 'set'
    if k == 3:
        e = P.pmap().evolver()
        for a, b in items:
            e[a] = b
        return e.persistent(), 'evolver'
    if k == 4:
        m = P.pmap().update(dict(items[::2]), dict(items[1::2]))
        return m, 'update'
    if k == 5:
        m = P.pmap()
        for a, b in items:
            m = m.set(a, E())
        for a, b in items:
            m = m.set(a, b)
        return m, 'overwritten'
    return P.pmap(items), 'pairs'


def gen_map(rng, ctx, P, d, uni, pool=()):
    """uni: universe of keys"""
    def akey(present=0.6):
        if d and rng.random() < present:
            k = rng.choice(list(d))
        else:
            k = rng.choice(uni)
        return twin(rng, k) if rng.random() < 0.3 else k
    if rng.random() < 0.02:
        return foreign(rng, 'map')
    k = rng.choice(['set', 'set', 'set', 'set', 'remove', 'remove', 'discard', 'update', 'update_with', 'add', 'or', 'get', 'get', 'getd',
                    'contains', 'contains', 'iter', 'views', 'views2', 'len', 'eq', 'attr', 'evolve', 'evolve', 'bool', 'repr', 'copy', 'hash', 'items_in', 'transform', 'keyset'])
    if k == 'set':
        a, b = akey(0.4), value(rng, ctx)
        if rng.random() < 0.1 and a in d:
            b = d[a]
        def ms(d):
            d = dict(d)
            d[a] = b
            return d
        return Op(k, (a, b), lambda m: m.set(a, b), ms)
    if k in ('remove', 'discard'):
        a = akey(0.75)
        def mr(d):
            d = dict(d)
            if k == 'remove':
                del d[a]
            else:
                d.pop(a, None)
            return d
        return Op(k, a, (lambda m: m.remove(a)) if k == 'remove' else (lambda m: m.discard(a)), mr)
    if k in ('update', 'add', 'or', 'update_with'):
        ds = [{akey(0.4): value(rng, ctx) for _ in range(rng.choice([0, 1, 2, 3, 8, 30]))} for _ in range(1 if k in ('add', 'or') else rng.choice([0, 1, 1, 2, 3]))]
        wrap = [rng.random() < 0.5 for _ in ds]
        def args():
            return [P.pmap(x) if w else x for x, w in zip(ds, wrap)]
        def mu(d):
            d = dict(d)
            for x in ds:
                for a, b in x.items():
                    if k == 'update_with' and a in d:
                        d[a] = (d[a], b)
                    else:
                        d[a] = b
            return d
        if k == 'update':
            f = lambda m: m.update(*args())
        elif k == 'update_with':
            f = lambda m: m.update_with(lambda x, y: (x, y), *args())
        elif k == 'add':
            f = lambda m: m + args()[0]
        else:
            f = lambda m: m | args()[0]
        return Op(k, [len(x) for x in ds], f, mu)
    if k == 'get':
        a = akey()
        return Op(k, a, lambda m: m[a], lambda d: d[a], 'obs')
    if k == 'getd':
        a = akey()
        x = E()
        if rng.random() < 0.5:
            return Op(k, a, lambda m: m.get(a, x), lambda d: d.get(a, x), 'obs')
        return Op(k, a, lambda m: m.get(a), lambda d: d.get(a), 'obs')
    if k == 'contains':
        a = akey()
        return Op(k, a, lambda m: a in m, lambda d: a in d, 'obs')
    if k == 'iter':
        return Op(k, '', lambda m: [ident_set(m), ident_set(m.iterkeys())], lambda d: [ident_set(d)] * 2, 'obs')
    if k == 'views':
        return Op(k, '', lambda m: [ident_set(m.keys()), ident_set(m.values()), ident_pairs(m.items()), len(m.keys()), len(m.values()), len(m.items()),
                                    ident_set(m.itervalues()), ident_pairs(m.iteritems())],
                  lambda d: [ident_set(d), ident_set(d.values()), ident_pairs(d.items()), len(d), len(d), len(d), ident_set(d.values()), ident_pairs(d.items())], 'obs')
    if k == 'views2':
        # views as objects: equality, text, no order, no assignment, what is not an item
        y = rng.choice(list(d)) if d else None
        junk = rng.choice([5, None, (), (1,), (1, 2, 3), object(), [[]]])

        def v2(m):
            n, vs, its = P.pmap(dict(m)), m.values(), m.items()
            less = m.remove(y) if y is not None and y in m else None
            r = [its == its, its == m.items(), its == n.items(), n.items() == its, its != n.items(), its == list(its), its == m, vs == vs, vs == list(vs), vs != vs, vs == its,
                 junk in its, str(its) == repr(its) == 'pmap_items(%s)' % list(its), str(vs) == repr(vs) == 'pmap_values(%s)' % list(vs)]
            r += [less.items() == its, its == less.items(), its != less.items(), less.values() == vs] if less is not None else [False, False, True, False]
            return r + [attempt(reversed, its)[1].__class__, attempt(reversed, vs)[1].__class__, attempt(setattr, its, 'x', 1)[1].__class__, attempt(setattr, vs, '_map', n)[1].__class__, len(its), len(vs)]
        return Op(k, (y, junk), v2, lambda d: [True, True, True, True, False, False, False, True, False, False, False, False, True, True, False, False, True, False,
                                               TypeError, TypeError, TypeError, TypeError, len(d), len(d)], 'obs')
    if k == 'keyset':
        a = akey()
        return Op(k, a, lambda m: [ident_set(m.keys().add(a)), ident_set(m.keys().discard(a)), a in m.keys()],
                  lambda d: [ident_set(list(d) if a in d else list(d) + [a]), ident_set([x for x in d if not x == a]), a in d], 'obs')
    if k == 'items_in':
        a, x = akey(), value(rng, ctx)
        return Op(k, a, lambda m: [(a, m.get(a)) in m.items(), (a, x) in m.items(), x in m.values(), (1, 2, 3) in m.items()],
                  lambda d: [(a, d.get(a)) in d.items(), (a, x) in d.items(), x in d.values(), False], 'obs')
    if k == 'len':
        return Op(k, '', len, len, 'obs')
    if k == 'bool':
        return Op(k, '', bool, bool, 'obs')
    if k == 'repr':
        return Op(k, '', lambda m: (repr(m).startswith('pmap({'), len(repr(m)), str(m) == repr(m)), lambda d: (True, len('pmap(%r)' % (d,)), True), 'obs')
    if k == 'copy':
        return Op(k, '', lambda m: m.copy(), lambda d: d)
    if k == 'hash':
        return Op(k, '', lambda m: hash(m) == hash(P.pmap(dict(m))), lambda d: hash(frozenset(d.items())) is not None, 'obs')
    if k == 'eq':
        if d and rng.random() < 0.4:
            # a map derived from the one at hand, with a value of the same hash in place of another; with and without cached hashes
            y, z, hashed = rng.choice(list(d)), rng.choice([(-1, -2), (-2, -1), (K('p', 3), K('q', 3))]), rng.randrange(4)

            def rel(m):
                m = m.set(y, z[0])
                w = m.set(y, z[1])
                if hashed & 1:
                    attempt(hash, m)
                if hashed & 2:
                    attempt(hash, w)
                u = w.set(y, z[0])
                return m == w, w == m, m != w, m == u, u == m, u == w
            return Op('eq relative', y, rel, lambda d: (False, False, True, True, True, False), 'obs')
        if pool and rng.random() < 0.4:
            ov, od = rng.choice(pool)
        else:
            od = dict(d)
            if od and rng.random() < 0.7:
                od[rng.choice(list(od))] = rng.choice([0, 1, None])
            if rng.random() < 0.3:
                od[akey(0.1)] = 1
            ov = build_map(rng, ctx, P, od)[0] if rng.random() < 0.6 else rng.choice([dict, dict, UserDict, OrderedDict, MappingProxyType, ChainMap])(dict(od))
        return Op(k, len(od), lambda m: (m == ov, m != ov, ov == m, ov != m), lambda d: (d == od, d != od) * 2, 'obs')
    if k == 'attr':
        names = [x for x in d if isinstance(x, str) and not hasattr(P.PMap, x)]
        a = rng.choice(names) if names and rng.random() < 0.8 else 'no_such_key'
        def ma(d):
            if a in d:
                return d[a]
            raise AttributeError(a)
        return Op(k, a, lambda m: getattr(m, a), ma, 'obs')
    if k == 'transform':
        a, x = akey(0.7), E()
        if callable(a):
            return Op('len', '', len, len, 'obs')
        def mt(d):
            d = dict(d)
            d[a] = x
            return d
        return Op(k, a, lambda m: m.transform([a], x), mt)
    script = [gen_map_evolver(rng, ctx, d, uni) for _ in range(rng.choice([0, 1, 2, 3, 6, 20]))]
    return evolve_op(script, dict)


def gen_map_evolver(rng, ctx, d, uni):
    k = rng.choice(['set', 'set', 'item', 'remove', 'del', 'read', 'contains', 'len', 'setx', 'setx'])
    a = rng.choice(list(d)) if d and rng.random() < 0.5 and k != 'setx' else rng.choice(uni)
    if rng.random() < 0.2:
        a = twin(rng, a)
    b = value(rng, ctx)
    def ms(d):
        d[a] = b
    def md(d):
        del d[a]
    if k in ('set', 'setx'):
        return Op('set', (a, b), lambda e: e.set(a, b), ms)
    if k == 'item':
        def f(e):
            e[a] = b
        return Op(k, (a, b), f, ms)
    if k == 'remove':
        return Op(k, a, lambda e: e.remove(a), md)
    if k == 'del':
        def f(e):
            del e[a]
        return Op(k, a, f, md)
    if k == 'read':
        return Op(k, a, lambda e: e[a], lambda d: d[a], 'obs')
    if k == 'contains':
        return Op(k, a, lambda e: a in e, lambda d: a in d, 'obs')
    return Op(k, '', len, len, 'obs')


def ident_set(it):
    """Multiset of identities (order free)."""
    return sorted(id(x) for x in it)


def ident_pairs(it):
    return sorted((id(a), id(b)) for a, b in it)


# ------------------------------------------------------------------ sets
def outcome(f, *a):
    """The result of an operator, or the kind of exception."""
    try:
        return f(*a)
    except TypeError:
        return 'TypeError'
    except Exception as e:
        return type(e).__name__


class Any:
    """Equal to everything (like unittest.mock.ANY)."""
    __hash__ = None

    def __eq__(self, x):
        return True


def foreign(rng, kind):
    """Operators with operands of other types: equal to nothing else, no order, TypeError where the operation makes no sense."""
    import operator as o
    if kind != 'bag' and rng.random() < 0.15:
        z = Any()
        return Op('equals anything', '', lambda v: [v == z, z == v, v != z, z != v], lambda m: [True, True, False, False], 'obs')
    plain = [None, 5, 1.5, object(), Ellipsis]
    coll = ['abc', b'x', [], [1], (), (1, 2), range(3)]
    eq, order, arith = [o.eq, o.ne], [o.lt, o.le, o.gt, o.ge], [o.add, o.sub, o.and_, o.or_, o.xor, o.mul]
    y = rng.choice(plain + coll)
    if kind == 'bag':
        y = rng.choice(plain + coll + [{}, {1: 2}, set(), {1, 2}, Counter([1, 1]), frozenset([1])])
        fs, want = [o.add, o.sub, o.or_, o.and_] + order + eq, ['TypeError'] * 10
    elif kind == 'set':
        fs, want = order + eq, ['TypeError'] * 4 + [False, True]
        if any(y is q for q in plain):
            fs, want = fs + [o.and_, o.or_, o.sub, o.xor, o.add, o.mul], want + ['TypeError'] * 6
    elif kind == 'map':
        fs, want = order + eq + [o.sub, o.and_, o.xor, o.mul], ['TypeError'] * 4 + [False, True] + ['TypeError'] * 4
    else:
        y = rng.choice(plain + ['abc', b'x', {}, {1: 2}, set(), frozenset([1])] + ([[], [1], (), (1, 2)] if kind != 'vec' else []))
        fs, want = order + eq + [o.sub, o.and_, o.or_, o.xor], ['TypeError'] * 4 + [False, True] + ['TypeError'] * 4
        if kind == 'vec' and any(y is q for q in plain):
            fs, want = fs + [o.add] + ([o.mul] if y != 5 else []), want + ['TypeError'] * (2 if y != 5 else 1)
    return Op('foreign', type(y).__name__, lambda v: [outcome(f, v, y) for f in fs], lambda m: want, 'obs')


def plain_iterable(rng, items, P):
    rng.shuffle(items)
    k = rng.randrange(9)
    return [lambda: items, lambda: tuple(items), lambda: iter(items), lambda: (x for x in items), lambda: dict.fromkeys(items, 2), lambda: deque(items), lambda: P.pvector(items), lambda: P.plist(items),
            lambda: P.pbag(items)][k]()


def gen_set(rng, ctx, P, st, uni, pool=()):
    """st: dict element->element (keeps the identity of the element kept)"""
    def el(present=0.5):
        k = rng.choice(list(st)) if st and rng.random() < present else rng.choice(uni)
        return twin(rng, k) if rng.random() < 0.3 else k
    if rng.random() < 0.02:
        return foreign(rng, 'set')
    k = rng.choice(['add', 'add', 'add', 'update', 'remove', 'discard', 'contains', 'iter', 'len', 'repr', 'copy', 'hash', 'bool',
                    'binop', 'binop', 'binop', 'named', 'cmp', 'cmp', 'isdisjoint', 'evolve', 'evolve'])
    if k == 'add':
        a = el()
        def ma(s):
            s = dict(s)
            s.setdefault(a, a)
            return s
        return Op(k, a, lambda s: s.add(a), ma)
    if k == 'update':
        xs = [el(0.3) for _ in range(rng.choice([0, 1, 2, 5, 20, 60]))]
        salt = rng.random()
        def mu(s):
            s = dict(s)
            for a in xs:
                s.setdefault(a, a)
            return s
        if rng.random() < 0.08:
            return Op('update itself', '', lambda s: s.update(s), dict)
        return Op(k, len(xs), lambda s: s.update(iterable_of(random.Random(salt), xs, None, P, True)[0]), mu)
    if k in ('remove', 'discard'):
        a = el(0.75)
        def mr(s):
            s = dict(s)
            if k == 'remove':
                del s[a]
            else:
                s.pop(a, None)
            return s
        return Op(k, a, (lambda s: s.remove(a)) if k == 'remove' else (lambda s: s.discard(a)), mr)
    if k == 'contains':
        a = el()
        return Op(k, a, lambda s: a in s, lambda s: a in s, 'obs')
    if k == 'iter':
        return Op(k, '', lambda s: sorted(map(id, s)), lambda s: sorted(map(id, s.values())), 'obs')
    if k == 'len':
        return Op(k, '', len, len, 'obs')
    if k == 'bool':
        return Op(k, '', bool, bool, 'obs')
    if k == 'copy':
        return Op(k, '', lambda s: s.copy(), lambda s: s)
    if k == 'hash':
        return Op(k, '', lambda s: hash(s), lambda s: hash(frozenset(s)), 'obs')
    if k == 'repr':
        def mrepr(s):
            return len('pset([%s])' % repr(set(s.values()))[1:-1]) if s else len('pset()')
        return Op(k, '', lambda s: len(repr(s)), mrepr, 'obs')
    if k == 'cmp' and rng.random() < 0.4:
        return _set_relative(rng)
    if k in ('binop', 'named', 'cmp', 'isdisjoint'):
        if pool and rng.random() < 0.4:
            ov, od = rng.choice(pool)
            od = dict(od)
        else:
            xs = [el(0.6) for _ in range(rng.choice([0, 1, 2, 4, 9, 30]))]
            if rng.random() < 0.2:
                xs = list(st)
            od = {}
            for a in xs:
                od.setdefault(a, a)
            ov = rng.choice([P.pset, P.pset, set, frozenset])(od)
        oset = set(od)
        plain, dups, salt = rng.random() < 0.35, [rng.choice(list(od)) for _ in range(rng.choice([0, 0, 1, 3]))] if od else [], rng.random()

        def operand():
            """The other set, or its elements (some of them twice) in a plain iterable."""
            return plain_iterable(random.Random(salt), list(od) + dups, P) if plain else ov
        if k == 'binop':
            o = rng.choice(['and_', 'or_', 'sub', 'xor'])
            import operator
            g = getattr(operator, o)
            def mb(s):
                r = g(set(s), oset)
                return {x: None for x in r}
            return Op('binop', (o, plain), lambda s: g(s, operand()), mb)
        if k == 'named':
            o = rng.choice(['union', 'intersection', 'difference', 'symmetric_difference'])
            def mn(s):
                return {x: None for x in getattr(set(s), o)(oset)}
            return Op('named', (o, plain), lambda s: getattr(s, o)(operand()), mn)
        if k == 'isdisjoint':
            return Op(k, plain, lambda s: s.isdisjoint(operand()), lambda s: set(s).isdisjoint(oset), 'obs')
        import operator
        fs = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge]
        return Op('cmp', '', lambda s: [g(s, ov) for g in fs] + [s.issubset(ov), s.issuperset(ov)],
                  lambda s: [g(set(s), oset) for g in fs] + [set(s) <= oset, set(s) >= oset], 'obs')
    script = [gen_set_evolver(rng, ctx, st, uni) for _ in range(rng.choice([0, 1, 2, 3, 6, 20]))]
    return evolve_op(script, dict)


def _set_relative(rng):
    """The set against one derived from it in which an element is replaced by another of the same hash; with and without cached hashes."""
    import operator
    y, z = rng.choice([(-1, -2), (-2, -1), (K('p', 3), K('q', 3)), (K('p', 0), K('q', 0))])
    hashed, shape = rng.randrange(4), rng.randrange(4)
    fs = [operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge, operator.and_, operator.or_, operator.sub, operator.xor]

    def both(s, add, drop):
        a = add(drop(s, z), y)
        b = [lambda: add(drop(a, y), z), lambda: add(a, z), lambda: drop(a, y), lambda: add(drop(add(drop(a, y), z), z), y)][shape]()
        return a, b

    def out(r):
        return r if isinstance(r, bool) else ('set', len(r), frozenset(r))

    def fv(s):
        a, b = both(s, lambda t, x: t.add(x), lambda t, x: t.discard(x))
        if hashed & 1:
            hash(a)
        if hashed & 2:
            hash(b)
        return [out(g(a, b)) for g in fs] + [out(g(b, a)) for g in fs] + [a.issubset(b), a.issuperset(b), a.isdisjoint(b)]

    def fm(s):
        a, b = both(set(s), lambda t, x: t | {x}, lambda t, x: t - {x})
        return [out(g(a, b)) for g in fs] + [out(g(b, a)) for g in fs] + [a <= b, a >= b, a.isdisjoint(b)]
    return Op('cmp relative', (y, z, shape, hashed), fv, fm, 'obs')


def _bag_relative(rng):
    y, z = rng.choice([(-1, -2), (-2, -1), (K('p', 3), K('q', 3)), (K('p', 0), K('q', 0))])
    hashed = rng.randrange(4)

    def fv(b):
        a, w = b.add(y), b.add(z)
        if hashed & 1:
            hash(a)
        if hashed & 2:
            hash(w)
        u = w.add(y).remove(z)
        return a == w, w == a, a != w, a == u, u == a, a == a.add(y), a.add(y) == a, len(a | w), len(a & w), len(a - w), len(a + w)

    def fm(c):
        c = Counter(c)
        a, w = c + Counter([y]), c + Counter([z])
        t = lambda x: sum(x.values())
        return False, False, True, True, True, False, False, t(a | w), t(a & w), t(a - w), t(a + w)
    return Op('eq relative', (y, z, hashed), fv, fm, 'obs')


def gen_set_evolver(rng, ctx, st, uni):
    k = rng.choice(['add', 'add', 'add', 'remove', 'len'])
    a = rng.choice(list(st)) if st and rng.random() < 0.4 else rng.choice(uni)
    if rng.random() < 0.2:
        a = twin(rng, a)
    def ma(s):
        s.setdefault(a, a)
    def mr(s):
        del s[a]
    if k == 'add':
        return Op(k, a, lambda e: e.add(a), ma)
    if k == 'remove':
        return Op(k, a, lambda e: e.remove(a), mr)
    return Op(k, '', len, len, 'obs')


# ------------------------------------------------------------------ bags (model: dict element -> count > 0, insertion key kept)
def gen_bag(rng, ctx, P, bg, uni, pool=()):
    def el(present=0.5):
        k = rng.choice(list(bg)) if bg and rng.random() < present else rng.choice(uni)
        return twin(rng, k) if rng.random() < 0.3 else k
    if rng.random() < 0.02:
        return foreign(rng, 'bag')
    k = rng.choice(['add', 'add', 'add', 'update', 'update', 'remove', 'remove', 'count', 'contains', 'iter', 'len', 'repr', 'eq', 'hash', 'binop', 'binop', 'binop', 'bool'])
    if k == 'add':
        a = el()
        def ma(c):
            c = dict(c)
            c[a] = c.get(a, 0) + 1
            return c
        return Op(k, a, lambda b: b.add(a), ma)
    if k == 'update':
        xs = [el(0.4) for _ in range(rng.choice([0, 1, 2, 5, 20, 60]))]
        salt = rng.random()
        def mu(c):
            c = dict(c)
            for a in xs:
                c[a] = c.get(a, 0) + 1
            return c
        if rng.random() < 0.08:
            return Op('update itself', '', lambda b: b.update(b), lambda c: {a: 2 * j for a, j in c.items()})
        return Op(k, len(xs), lambda b: b.update(iterable_of(random.Random(salt), xs, None, P, True)[0]), mu)
    if k == 'remove':
        a = el(0.8)
        def mr(c):
            c = dict(c)
            if a not in c:
                raise KeyError(a)
            c[a] -= 1
            if not c[a]:
                del c[a]
            return c
        return Op(k, a, lambda b: b.remove(a), mr)
    if k == 'count':
        a = el()
        return Op(k, a, lambda b: b.count(a), lambda c: c.get(a, 0), 'obs')
    if k == 'contains':
        a = el()
        return Op(k, a, lambda b: a in b, lambda c: a in c, 'obs')
    if k == 'iter':
        return Op(k, '', lambda b: sorted(map(id, b)), lambda c: sorted(id(x) for x, n in c.items() for _ in range(n)), 'obs')
    if k == 'len':
        return Op(k, '', len, lambda c: sum(c.values()), 'obs')
    if k == 'bool':
        return Op(k, '', bool, bool, 'obs')
    if k == 'repr':
        return Op(k, '', lambda b: len(repr(b)), lambda c: len('pbag(%r)' % ([x for x, n in c.items() for _ in range(n)],)), 'obs')
    if k == 'hash':
        return Op(k, '', lambda b: hash(b) == hash(P.pbag(list(b)[::-1])), lambda c: True, 'obs')
    if k == 'eq' and rng.random() < 0.4:
        return _bag_relative(rng)
    if pool and rng.random() < 0.5:
        ov, oc = rng.choice(pool)
        oc = dict(oc)
    else:
        oc = {}
        for _ in range(rng.choice([0, 1, 2, 4, 9, 25])):
            a = el(0.6)
            oc[a] = oc.get(a, 0) + rng.choice([1, 1, 2])
        if rng.random() < 0.15:
            oc = dict(bg)
        ov = P.pbag([x for x, n in oc.items() for _ in range(n)])
    if k == 'eq':
        return Op(k, '', lambda b: (b == ov, b != ov, ov == b), lambda c: (c == oc, c != oc, c == oc), 'obs')
    import operator
    o = rng.choice(['add', 'sub', 'or_', 'and_'])
    g = getattr(operator, o)
    def mb(c):
        return dict(g(Counter(c), Counter(oc)))
    return Op('binop', o, lambda b: g(b, ov), mb)


# ------------------------------------------------------------------ plist
def gen_plist(rng, ctx, P, l, pool=()):
    n = len(l)
    if rng.random() < 0.02:
        return foreign(rng, 'plist')
    k = rng.choice(['cons', 'cons', 'mcons', 'rest', 'first', 'split', 'remove', 'reverse', 'reversed', 'get', 'slice', 'slice', 'iter', 'len',
                    'count', 'index', 'contains', 'cmp', 'repr', 'hash', 'bool', 'split_rejoin'])
    if k == 'cons':
        x = value(rng, ctx)
        return Op(k, x, lambda v: v.cons(x), lambda l: [x] + l)
    if k == 'mcons':
        xs = values(rng, rng.choice([0, 1, 2, 5, 33, rng.choice([5, 33, 1100, 2100]) if n < 2500 else 3]), ctx)
        salt = rng.random()
        if rng.random() < 0.08 and n < 600:
            return Op('mcons itself', '', lambda v: v.mcons(v), lambda l: l[::-1] + l)
        return Op(k, len(xs), lambda v: v.mcons(iterable_of(random.Random(salt), xs, None, P)[0]), lambda l: xs[::-1] + l)
    if k == 'rest':
        return Op(k, '', lambda v: v.rest, lambda l: l[1:])
    if k == 'first':
        def mf(l):
            if not l:
                raise AttributeError
            return l[0]
        return Op(k, '', lambda v: v.first, mf, 'obs')
    if k == 'split':
        i, w = rng.choice([0, 1, n, n - 1, n + 1, -1, n // 2, rng.randrange(n + 1)]), rng.randrange(2)
        def msp(l):
            j = max(i, 0)
            return (l[:j], l[j:])[w]
        return Op(k, (i, w), lambda v: v.split(i)[w], msp)
    if k == 'split_rejoin':
        i = rng.randrange(n + 1)
        def fsr(v):
            a, b = v.split(i)
            return b.mcons(a.reverse())
        return Op(k, i, fsr, list)
    if k == 'remove':
        x = rng.choice(l) if l and rng.random() < 0.8 else value(rng, ctx)
        def mr(l):
            l = list(l)
            l.remove(x)
            return l
        return Op(k, x, lambda v: v.remove(x), mr)
    if k in ('reverse', 'reversed'):
        return Op(k, '', (lambda v: v.reverse()) if k == 'reverse' else (lambda v: reversed(v)), lambda l: l[::-1])
    if k == 'get':
        i = index(rng, n)
        return Op(k, i, lambda v: v[i], lambda l: l[i], 'obs')
    if k == 'slice':
        s = a_slice(rng, n)
        return Op(k, s, lambda v: v[s], lambda l: l[s])
    if k == 'iter':
        return Op(k, '', list, list, 'obs')
    if k == 'len':
        return Op(k, '', len, len, 'obs')
    if k == 'bool':
        return Op(k, '', bool, bool, 'obs')
    if k == 'count':
        x = rng.choice(l) if l and rng.random() < 0.8 else value(rng, ctx)
        return Op(k, x, lambda v: v.count(x), lambda l: l.count(x), 'obs')
    if k == 'index':
        x = rng.choice(l) if l and rng.random() < 0.8 else value(rng, ctx)
        args = (x,) + tuple(rng.randrange(0, n + 2) if rng.random() < 0.6 else rng.randrange(-n - 2, n + 3) for _ in range(rng.choice([0, 0, 1, 2])))
        return Op(k, args, lambda v: v.index(*args), lambda l: l.index(*args), 'obs')
    if k == 'contains':
        x = rng.choice(l) if l and rng.random() < 0.6 else value(rng, ctx)
        return Op(k, x, lambda v: x in v, lambda l: x in l, 'obs')
    if k == 'repr':
        return Op(k, '', lambda v: (repr(v), str(v)), lambda l: ('plist(%r)' % (l,),) * 2, 'obs')
    if k == 'hash':
        return Op(k, '', lambda v: hash(v) == hash(P.plist(list(v))), lambda l: hash(tuple(l)) is not None, 'obs')
    return _seq_cmp(rng, ctx, l, pool, P.plist)


def relative(rng, n, kind):
    """(function of the value, function of the list): a value derived from the one at hand, sharing structure with it."""
    x, i = rng.choice([0, 1, -1, -2, None]), rng.randrange(n) if n else 0
    c = [(lambda v: v, lambda l: l)]
    if kind == 'plist':
        c += [(lambda v: v.cons(x), lambda l: [x] + l), (lambda v: v.rest, lambda l: l[1:]), (lambda v: v.mcons(list(v)[::-1]), lambda l: l + l), (lambda v: v.reverse(), lambda l: l[::-1]), (lambda v: v.split(i)[1], lambda l: l[i:]), (lambda v: v.split(i)[0], lambda l: l[:i]),
              (lambda v: v.rest.cons(x), lambda l: [x] + l[1:]), (lambda v: v.reverse().reverse(), lambda l: l)]
    elif kind == 'deque':
        c += [(lambda v: v.reverse(), lambda l: l[::-1]), (lambda v: v.popleft(), lambda l: l[1:]), (lambda v: v.pop(), lambda l: l[:-1]), (lambda v: v.pop().append(x), lambda l: l[:-1] + [x] if l else l), (lambda v: v.reverse().reverse(), lambda l: l), (lambda v: v.rotate(1).rotate(-1), lambda l: l)]
        if not n:
            c = c[:3]
    else:
        c += [(lambda v: v.append(x), lambda l: l + [x]), (lambda v: v.extend(v), lambda l: l + l), (lambda v: v * 2, lambda l: l * 2), (lambda v: v[1:], lambda l: l[1:]), (lambda v: v[:], lambda l: l), (lambda v: v[::-1], lambda l: l[::-1])]
        if n:
            c += [(lambda v: v.set(i, x), lambda l: l[:i] + [x] + l[i + 1:]), (lambda v: v.set(i, v[i]), lambda l: l), (lambda v: v.delete(i), lambda l: l[:i] + l[i + 1:])]
    return rng.choice(c)


def _relative_cmp(rng, n, kind, ops):
    import operator
    fv, fl = relative(rng, n, kind)
    o, hashed = rng.choice(ops), rng.randrange(4)
    g = getattr(operator, o)

    def run(v):
        w = fv(v)
        if hashed & 1:
            attempt(hash, v)
        if hashed & 2:
            attempt(hash, w)
        return g(v, w), g(w, v)
    return Op('cmp relative', o, run, lambda l: (g(list(l), fl(list(l))), g(fl(list(l)), list(l))), 'obs')


def _seq_cmp(rng, ctx, l, pool, make):
    if rng.random() < 0.4:
        return _relative_cmp(rng, len(l), 'plist' if make.__name__ == 'plist' else 'deque', ['eq', 'ne', 'lt', 'gt'])
    if pool and rng.random() < 0.5:
        ov, ol = rng.choice(pool)
    else:
        ol = list(l)
        if ol and rng.random() < 0.6:
            ol[rng.randrange(len(ol))] = rng.choice([0, 1, 2, None])
        if rng.random() < 0.3:
            ol = ol[:rng.randrange(len(ol) + 1)]
        ov = make(ol)
    import operator
    o = rng.choice(['eq', 'ne', 'lt', 'gt'])
    g = getattr(operator, o)
    return Op('cmp', o, lambda v: g(v, ov), lambda l: g(list(l), list(ol)), 'obs')


# ------------------------------------------------------------------ pdeque (model: (list, maxlen))
class MD(list):
    """List model of a bounded deque."""
    maxlen = None

    def __init__(self, items=(), maxlen=None):
        list.__init__(self, items)
        self.maxlen = maxlen

    def to(self, items, drop_left=True):
        items = list(items)
        if self.maxlen is not None and len(items) > self.maxlen:
            items = items[len(items) - self.maxlen:] if drop_left else items[:self.maxlen]
        return MD(items, self.maxlen)


def gen_deque(rng, ctx, P, l, pool=()):
    n = len(l)
    if rng.random() < 0.02:
        return foreign(rng, 'deque')
    k = rng.choice(['append', 'append', 'append', 'appendleft', 'appendleft', 'appendleft', 'extend', 'extendleft', 'pop', 'pop', 'popleft', 'popleft', 'popn', 'popleftn',
                    'remove', 'remove', 'reverse', 'reversed', 'rotate', 'rotate', 'get', 'get', 'slice', 'slice', 'left', 'right', 'count', 'index', 'contains', 'len',
                    'iter', 'cmp', 'repr', 'hash', 'bool', 'maxlen'])
    if k in ('append', 'appendleft'):
        x = value(rng, ctx)
        if k == 'append':
            return Op(k, x, lambda v: v.append(x), lambda l: l.to(list(l) + [x]))
        return Op(k, x, lambda v: v.appendleft(x), lambda l: l.to([x] + list(l), False))
    if k in ('extend', 'extendleft'):
        xs = values(rng, rng.choice([0, 1, 2, 3, 7, 33, rng.choice([7, 33, 1100]) if n < 2000 else 3]), ctx)
        salt = rng.random()
        mk = lambda: iterable_of(random.Random(salt), xs, None, P)[0]
        if rng.random() < 0.1 and n < 600:
            return Op(k + ' by itself', '', lambda v: getattr(v, k)(v), lambda l: l.to(list(l) + list(l)) if k == 'extend' else l.to(list(l)[::-1] + list(l), False))
        if k == 'extend':
            return Op(k, len(xs), lambda v: v.extend(mk()), lambda l: l.to(list(l) + xs))
        return Op(k, len(xs), lambda v: v.extendleft(mk()), lambda l: l.to(xs[::-1] + list(l), False))
    if k == 'pop':
        return Op(k, '', lambda v: v.pop(), lambda l: l.to(list(l)[:-1]))
    if k == 'popleft':
        return Op(k, '', lambda v: v.popleft(), lambda l: l.to(list(l)[1:]))
    if k in ('popn', 'popleftn'):
        c = rng.choice([0, 1, 2, n, n - 1, n + 1, n // 2, -1, -2, -n, -n - 1, rng.randrange(-n - 2, n + 3)])
        right = (k == 'popn') == (c >= 0)
        def mp(l):
            l2, a = list(l), abs(c)
            return l.to(l2[:max(len(l2) - a, 0)] if right else l2[a:])
        return Op(k, c, (lambda v: v.pop(c)) if k == 'popn' else (lambda v: v.popleft(c)), mp)
    if k == 'remove':
        x = rng.choice(l) if l and rng.random() < 0.85 else value(rng, ctx)
        def mr(l):
            l2 = list(l)
            l2.remove(x)
            return l.to(l2)
        return Op(k, x, lambda v: v.remove(x), mr)
    if k in ('reverse', 'reversed'):
        return Op(k, '', (lambda v: v.reverse()) if k == 'reverse' else (lambda v: reversed(v)), lambda l: l.to(list(l)[::-1]))
    if k == 'rotate':
        s = rng.choice([0, 1, -1, 2, -2, n, -n, n + 1, -n - 1, 2 * n + 1, rng.randrange(-n - 1, n + 2), 7, -7])
        def mro(l):
            dq = deque(l)
            dq.rotate(s)
            return l.to(dq)
        return Op(k, s, lambda v: v.rotate(s), mro)
    if k == 'get':
        i = index(rng, n)
        return Op(k, i, lambda v: v[i], lambda l: list(l)[i], 'obs')
    if k == 'slice':
        s = a_slice(rng, n)
        return Op(k, s, lambda v: v[s], lambda l: l.to(list(l)[s]))
    if k in ('left', 'right'):
        i = 0 if k == 'left' else -1
        return Op(k, '', lambda v: getattr(v, k), lambda l: list(l)[i], 'obs')
    if k == 'count':
        x = rng.choice(l) if l and rng.random() < 0.8 else value(rng, ctx)
        return Op(k, x, lambda v: v.count(x), lambda l: l.count(x), 'obs')
    if k == 'index':
        x = rng.choice(l) if l and rng.random() < 0.8 else value(rng, ctx)
        args = (x,) + tuple(rng.randrange(0, n + 2) if rng.random() < 0.6 else rng.randrange(-n - 2, n + 3) for _ in range(rng.choice([0, 0, 1, 2])))
        return Op(k, args, lambda v: v.index(*args), lambda l: l.index(*args), 'obs')
    if k == 'contains':
        x = rng.choice(l) if l and rng.random() < 0.6 else value(rng, ctx)
        return Op(k, x, lambda v: x in v, lambda l: x in l, 'obs')
    if k == 'len':
        return Op(k, '', len, len, 'obs')
    if k == 'bool':
        return Op(k, '', bool, bool, 'obs')
    if k == 'iter':
        return Op(k, '', list, list, 'obs')
    if k == 'maxlen':
        return Op(k, '', lambda v: v.maxlen, lambda l: l.maxlen, 'obs')
    if k == 'repr':
        return Op(k, '', lambda v: (repr(v), str(v)), lambda l: ('pdeque(%r%s)' % (list(l), '' if l.maxlen is None else ', maxlen=%d' % l.maxlen),) * 2, 'obs')
    if k == 'hash':
        return Op(k, '', lambda v: hash(v) == hash(P.pdeque(list(v), v.maxlen)), lambda l: hash(tuple(l)) is not None, 'obs')
    return _seq_cmp(rng, ctx, l, pool, P.pdeque)
