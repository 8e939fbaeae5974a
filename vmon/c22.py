"""C22: cost monitors - bytes allocated (peak, from the allocator trace), bytecodes executed in the library, key comparisons, time ratio
between sizes, identity of results that need no copy."""
import gc, os, pickle, sys, time, tracemalloc
import pyrsistent as P
from pyrsistent._pvector import python_pvector
from .base import *

PKG = os.path.dirname(os.path.realpath(P.__file__))
BYTES = 6000            # peak bytes of one update; copying 1500 references takes 12000
OPS = 12000             # bytecodes of one update
FILES = {}


class Stop(Exception):
    pass


def inside(code):
    f = code.co_filename
    r = FILES.get(f)
    if r is None:
        r = FILES[f] = os.path.dirname(os.path.realpath(f)) == PKG or '_collections_abc' in f
    return r


def peak_of(f):
    """Peak bytes allocated on top of what was there while f runs."""
    f()
    tracemalloc.start(1)
    try:
        tracemalloc.reset_peak()
        a = tracemalloc.get_traced_memory()[0]
        r = f()
        return tracemalloc.get_traced_memory()[1] - a
    finally:
        tracemalloc.stop()


def bytecodes_of(f, limit=10**9):
    n = [0]

    def loc(frame, event, arg):
        if event == 'opcode':
            n[0] += 1
            if n[0] > limit:
                raise Stop()
        return loc

    def glob(frame, event, arg):
        if not inside(frame.f_code):
            return None
        frame.f_trace_opcodes = True
        return loc
    sys.settrace(glob)
    try:
        f()
    except Stop:
        pass
    finally:
        sys.settrace(None)
    return n[0]


def cheap(ctx, what, f, budget=1):
    """f allocates and does no more than a small multiple of the depth, whatever the size."""
    b = peak_of(f)
    if b > BYTES * budget:
        b = min(b, peak_of(f), peak_of(f))
    ctx.counters['measured'] += 1
    ctx.counters['max_bytes'] = max(ctx.counters['max_bytes'], b)
    ctx.check_that(b <= BYTES * budget, what + ' allocates in proportion to the size', bytes=b, allowed=BYTES * budget)
    n = bytecodes_of(f, 3 * OPS * budget)
    ctx.counters['max_bytecodes'] = max(ctx.counters['max_bytecodes'], n)
    ctx.check_that(n <= OPS * budget, what + ' does work in proportion to the size', bytecodes=n, allowed=OPS * budget)
    ctx.counters['max_bytes'] = max(ctx.counters['max_bytes'], b)


class CV(P.CheckedPVector):
    __type__ = object
    __invariant__ = lambda x: (True, '')


class CM(P.CheckedPMap):
    __key_type__ = object
    __value_type__ = object
    __invariant__ = lambda k, v: (True, '')


class CS(P.CheckedPSet):
    __type__ = object
    __invariant__ = lambda x: (True, '')


# ------------------------------------------------------------------ vectors
def one_by_one(make):
    def f(l):
        v = make([])
        for x in l:
            v = v.append(x)
        return v
    return f


def by_evolver(make):
    def f(l):
        e = make([]).evolver()
        for x in l:
            e.append(x)
        return e.persistent()
    return f


VROUTES = {
    'bulk': lambda mk: mk, 'append': one_by_one, 'evolver': by_evolver, 'extend': lambda mk: lambda l: mk(l[:len(l) // 3]).extend(l[len(l) // 3:]), 'slice': lambda mk: lambda l: mk([0] + l)[1:] if mk is not CV else mk(l),
    'delete': lambda mk: lambda l: mk(l + [1, 2]).delete(len(l), len(l) + 2) if mk is not CV else mk(l), 'pickle': lambda mk: lambda l: pickle.loads(pickle.dumps(mk([1] * len(l)))), 'gen': lambda mk: lambda l: mk(x for x in l),
    'evolved': lambda mk: lambda l: mk(l).evolver().set(0, 1).set(len(l) - 1, 2).append(3).persistent(), 'sum': lambda mk: lambda l: mk(l[:40]) + l[40:]}


def vectors(ctx, rng, mk, route, n):
    v = VROUTES[route](mk)([object() for _ in range(n)] if route != 'pickle' else list(range(n)))
    n = len(v)
    tail = ((n - 1) >> 5) << 5
    x = object()
    for i in sorted({0, 1, 31, 32, n // 2, tail - 1, tail, n - 1, -1, -n, rng.randrange(n)}):
        for name, f in (('get', lambda: v[i]), ('set', lambda: v.set(i, x)), ('evolver set', lambda: v.evolver().set(i, x).persistent()), ('mset', lambda: v.mset(i, x, 5, x)), ('transform', lambda: v.transform([i % n], x)), ('evolver get', lambda: v.evolver()[i])):
            cheap(ctx, 'vector of %d (%s): %s at %d' % (n, route, name, i), f)
    for name, f in (('append', lambda: v.append(x)), ('append 3', lambda: v.append(x).append(x).append(x)), ('extend', lambda: v.extend([x, x])), ('evolver append', lambda: v.evolver().append(x).persistent()), ('evolver', lambda: v.evolver()), ('len', lambda: len(v)), ('empty extend', lambda: v.extend([])), ('sum', lambda: v + [x]),
                    ('set at len', lambda: v.set(n, x)), ('chain', lambda: v.set(0, x).set(n - 1, x).append(x))):
        cheap(ctx, 'vector of %d (%s): %s' % (n, route, name), f)
    # growing through a whole leaf, each step from the one before
    w = v
    for _ in range(34):
        cheap(ctx, 'vector of %d (%s): append' % (len(w), route), lambda: w.append(x)) if rng.random() < 0.3 else None
        w = w.append(x)
    # a live evolver with changes
    e = v.evolver()
    for j in range(5):
        e.append(x)
        e.set(rng.randrange(n), x)
    i = rng.randrange(n)
    for name, f in (('set', lambda: e.set(i, x)), ('get', lambda: e[i]), ('len', lambda: len(e)), ('is_dirty', lambda: e.is_dirty())):
        cheap(ctx, 'evolver of a vector of %d (%s): %s' % (n, route, name), f)
    cheap(ctx, 'evolver of a vector of %d (%s): set and persistent' % (n, route), lambda: e.set(i, object()).persistent(), 4)
    cheap(ctx, 'evolver of a vector of %d (%s): persistent' % (n, route), lambda: e.persistent())
    # nothing to copy
    same(ctx, 'empty extend', v.extend([]), v)
    same(ctx, 'full slice', v[:], v) if mk is not CV else None
    ctx.note('vector', mk.__name__, route, n)


def same(ctx, what, got, want):
    ctx.counters['identity'] += 1
    ctx.check_that(got is want, what + ' does not return the same object', size=len(want), type=type(want))


# ------------------------------------------------------------------ maps, sets, bags
class Ctr:
    n = 0
    h = 0


class CK:
    __slots__ = ('i', 'h')

    def __init__(self, i, h):
        self.i, self.h = i, h

    def __hash__(self):
        Ctr.h += 1
        return self.h

    def __eq__(self, o):
        Ctr.n += 1
        return isinstance(o, CK) and o.i == self.i

    def __reduce__(self):
        return CK, (self.i, self.h)


def keys(rng, n):
    kind = rng.choice(['random', 'sequential', 'offset'])
    if kind == 'random':
        return [CK(i, rng.randrange(-2**60, 2**60)) for i in range(n)]
    base = 0 if kind == 'sequential' else rng.randrange(10**9)
    ks = [CK(i, base + i) for i in range(n)]
    rng.shuffle(ks)
    return ks


def ev_map(m, d):
    e = m.evolver()
    for k, v in d.items():
        e[k] = v
    return e.persistent()


def sets_map(m, d):
    for k, v in d.items():
        m = m.set(k, v)
    return m


def half(d):
    ks = list(d)
    return {k: d[k] for k in ks[:len(ks) // 2]}, {k: d[k] for k in ks[len(ks) // 2:]}


MROUTES = {
    'bulk': lambda d: P.pmap(d), 'pairs': lambda d: P.pmap(list(d.items())), 'set': lambda d: sets_map(P.pmap(), d), 'evolver': lambda d: ev_map(P.pmap(), d), 'update': lambda d: P.pmap().update(d), 'update map': lambda d: P.pmap().update(P.pmap(d)), 'plus': lambda d: P.pmap(half(d)[0]) + half(d)[1],
    'presized': lambda d: P.pmap(d, pre_size=2 * len(d) + 5), 'grown': lambda d: sets_map(P.pmap(half(d)[0]), half(d)[1]), 'ev grown': lambda d: ev_map(P.pmap(half(d)[0]), half(d)[1]), 'pickle': lambda d: pickle.loads(pickle.dumps(P.pmap(d))), 'removed': lambda d: drop(P.pmap(d), d), 'update_with': lambda d: P.pmap().update_with(lambda a, b: b, d),
    'checked': lambda d: CM(d), 'checked set': lambda d: sets_map(CM(), d), 'checked update': lambda d: CM().update(d), 'checked evolver': lambda d: ev_map(CM(), d), 'freeze': lambda d: P.freeze(d), 'generator': lambda d: P.pmap(x for x in d.items()), 'refilled': lambda d: sets_map(drop(P.pmap(d), d), d), 'checked pickle': lambda d: pickle.loads(pickle.dumps(CM(d)))}


def drop(m, d):
    for k in list(d)[::3]:
        m = m.remove(k)
    return m


def lookups(ctx, what, ks, misses, hit, mean):
    """Mean and maximum key comparisons per operation."""
    tot = mx = 0
    for k in ks:
        Ctr.n = 0
        hit(k)
        tot += Ctr.n
        mx = max(mx, Ctr.n)
    ctx.counters['lookups'] += len(ks)
    ctx.counters['comparisons'] += tot
    ctx.check_that(tot <= mean * len(ks), what + ' compares too many keys', mean=round(tot / max(1, len(ks)), 2), max=mx, allowed_mean=mean)


def maps(ctx, rng, route, n):
    ks = keys(rng, n)
    d = {k: object() if 'pickle' not in route else i for i, k in enumerate(ks)}
    m = MROUTES[route](d)
    # restored keys are equal copies: look them up with the originals
    present = [k for k in rng.sample(ks, min(n, 150)) if k in m]
    absent = [CK(-i - 1, rng.randrange(-2**60, 2**60)) for i in range(150)]
    what = 'map of %d (%s): ' % (n, route)
    lookups(ctx, what + 'lookup', present, None, lambda k: m[k], 4)
    lookups(ctx, what + 'get', present, None, lambda k: m.get(k), 4)
    lookups(ctx, what + 'in', present, None, lambda k: k in m, 4)
    lookups(ctx, what + 'lookup of absent keys', absent, None, lambda k: m.get(k), 4)
    lookups(ctx, what + 'in for absent keys', absent, None, lambda k: k in m, 4)
    x = object()
    lookups(ctx, what + 'set', present, None, lambda k: m.set(k, x), 12)
    lookups(ctx, what + 'set new', absent[:3], None, lambda k: m.set(k, x), 12)
    lookups(ctx, what + 'remove', present, None, lambda k: m.remove(k), 12)
    lookups(ctx, what + 'discard', absent, None, lambda k: m.discard(k), 12)
    lookups(ctx, what + 'in items()', present, None, lambda k: (k, None) in m.items(), 8)
    lookups(ctx, what + 'in items() for absent keys', absent, None, lambda k: (k, None) in m.items(), 8)
    lookups(ctx, what + 'in keys()', present, None, lambda k: k in m.keys(), 8)
    lookups(ctx, what + 'in an evolver', present, None, lambda k: k in m.evolver(), 8)
    lookups(ctx, what + 'remove through an evolver', present, None, lambda k: m.evolver().remove(k).persistent(), 12)
    for k in present[:3]:
        for name, f in (('get', lambda: m[k]), ('in', lambda: k in m), ('in items', lambda: (k, x) in m.items()), ('in keys', lambda: k in m.keys()), ('set', lambda: m.set(k, x)), ('remove', lambda: m.remove(k)), ('discard', lambda: m.discard(k)), ('evolver set', lambda: m.evolver().set(k, x).persistent()), ('evolver remove', lambda: m.evolver().remove(k).persistent()), ('update', lambda: m.update({k: x})),
                        ('update_with', lambda: m.update_with(lambda a, b: b, {k: x})), ('transform', lambda: m.transform([k], x)), ('evolver', lambda: m.evolver()), ('len', lambda: len(m)), ('plus', lambda: m + {k: x}), ('evolver get', lambda: m.evolver()[k])):
            cheap(ctx, what + name, f)
        same(ctx, what + 'set to the same value', m.set(k, m[k]), m) if n > 1 else None
    # new keys: growth is occasional, so at most a few of many insertions may be expensive
    costs = []
    w = m
    for k in absent[:40]:
        costs.append(peak_of(lambda: w.set(k, x)))
        w = w.set(k, x)
    dear = sum(1 for c in costs if c > BYTES)
    ctx.counters['measured'] += len(costs)
    ctx.check_that(dear <= 3, what + 'inserting new keys allocates in proportion to the size again and again', expensive=dear, of=len(costs), worst=max(costs))
    same(ctx, what + 'discard of an absent key', m.discard(absent[0]), m)
    e = m.evolver()
    for k in present[:5]:
        e[k] = x
    for name, f in (('set', lambda: e.set(present[0], object())), ('get', lambda: e[present[0]]), ('in', lambda: present[0] in e), ('len', lambda: len(e))):
        cheap(ctx, 'evolver of a ' + what + name, f)
    ctx.note('map', route, n, ks[0].h)


def adds(s, ks):
    for k in ks:
        s = s.add(k)
    return s


def ev_adds(s, ks):
    e = s.evolver()
    for k in ks:
        e.add(k)
    return e.persistent()


SROUTES = {
    'bulk': lambda l: P.pset(l), 'generator': lambda l: P.pset(x for x in l), 's()': lambda l: P.s(*l), 'add': lambda l: adds(P.pset(), l), 'evolver': lambda l: ev_adds(P.pset(), l), 'update': lambda l: P.pset().update(l), 'or': lambda l: P.pset(l[:len(l) // 2]) | P.pset(l[len(l) // 2:]), 'and': lambda l: P.pset(l) & P.pset(l),
    'sub': lambda l: P.pset(l) - P.pset([1]), 'xor': lambda l: P.pset(l[:9]) ^ P.pset(l[9:]), 'keys': lambda l: P.pmap({k: 1 for k in l}).keys(), 'pickle': lambda l: pickle.loads(pickle.dumps(P.pset(l))), 'grown': lambda l: adds(P.pset(l[:len(l) // 2]), l[len(l) // 2:]), 'checked': lambda l: CS(l), 'checked add': lambda l: adds(CS(), l), 'checked evolver': lambda l: ev_adds(CS(), l),
    'checked update': lambda l: CS().update(l), 'freeze': lambda l: P.freeze(set(l)), 'presized': lambda l: P.pset(l, pre_size=2 * len(l)), 'checked pickle': lambda l: pickle.loads(pickle.dumps(CS(l))), 'built-in': lambda l: P.pset(set(l)), 'or built-in': lambda l: P.pset(l[:4]) | set(l), 'union': lambda l: P.pset(l[:5]).union(l)}


def sets(ctx, rng, route, n):
    ks = keys(rng, n)
    s = SROUTES[route](ks)
    present = rng.sample(ks, min(n, 150))
    absent = [CK(-i - 1, rng.randrange(-2**60, 2**60)) for i in range(150)]
    what = 'set of %d (%s): ' % (n, route)
    lookups(ctx, what + 'in', present, None, lambda k: k in s, 4)
    lookups(ctx, what + 'in for absent elements', absent, None, lambda k: k in s, 4)
    lookups(ctx, what + 'add', present, None, lambda k: s.add(k), 12)
    lookups(ctx, what + 'remove', present, None, lambda k: s.remove(k), 12)
    lookups(ctx, what + 'discard', absent, None, lambda k: s.discard(k), 12)
    for k in present[:3]:
        for name, f in (('in', lambda: k in s), ('add', lambda: s.add(k)), ('remove', lambda: s.remove(k)), ('discard', lambda: s.discard(k)), ('evolver', lambda: s.evolver().remove(k).persistent()), ('update', lambda: s.update([k])), ('len', lambda: len(s))):
            cheap(ctx, what + name, f)
        same(ctx, what + 'add of a present element', s.add(k), s) if route != 'keys' else None
    costs, w = [], s
    for k in absent[:40]:
        costs.append(peak_of(lambda: w.add(k)))
        w = w.add(k)
    dear = sum(1 for c in costs if c > BYTES)
    ctx.check_that(dear <= 3, what + 'adding elements allocates in proportion to the size again and again', expensive=dear, of=len(costs), worst=max(costs))
    same(ctx, what + 'discard of an absent element', s.discard(absent[0]), s)
    ctx.note('set', route, n, ks[0].h)


BROUTES = {'bulk': lambda l: P.pbag(l), 'b()': lambda l: P.b(*l), 'add': lambda l: adds(P.pbag([]), l), 'update': lambda l: P.pbag([]).update(l), 'plus': lambda l: P.pbag(l[:len(l) // 2]) + P.pbag(l[len(l) // 2:]), 'or': lambda l: P.pbag(l) | P.pbag(l[:5]), 'and': lambda l: P.pbag(l) & P.pbag(l), 'sub': lambda l: P.pbag(l + l) - P.pbag(l),
           'pickle': lambda l: pickle.loads(pickle.dumps(P.pbag(l)))}


def bags(ctx, rng, route, n):
    ks = keys(rng, n)
    b = BROUTES[route](ks)
    present = rng.sample(ks, min(n, 100))
    absent = [CK(-i - 1, rng.randrange(-2**60, 2**60)) for i in range(100)]
    what = 'bag of %d (%s): ' % (n, route)
    lookups(ctx, what + 'count', present, None, lambda k: b.count(k), 8)
    lookups(ctx, what + 'in', present, None, lambda k: k in b, 8)
    lookups(ctx, what + 'count of absent elements', absent, None, lambda k: b.count(k), 8)
    lookups(ctx, what + 'add', present, None, lambda k: b.add(k), 16)
    lookups(ctx, what + 'remove', present, None, lambda k: b.remove(k), 16)
    for k in present[:3]:
        for name, f in (('count', lambda: b.count(k)), ('in', lambda: k in b), ('add', lambda: b.add(k)), ('remove', lambda: b.remove(k)), ('update', lambda: b.update([k]))):
            cheap(ctx, what + name, f)
    ctx.note('bag', route, n, ks[0].h)


def growth(ctx, rng, kind, n):
    """Growing one element at a time: keys hashed and compared per element stay constant on average."""
    ks = keys(rng, n)
    for name, f in {'map': (('set', lambda: sets_map(P.pmap(), dict.fromkeys(ks))), ('evolver', lambda: ev_map(P.pmap(), dict.fromkeys(ks))), ('update', lambda: P.pmap().update(dict.fromkeys(ks))), ('grown', lambda: sets_map(P.pmap({1: 1}), dict.fromkeys(ks))), ('checked', lambda: sets_map(CM(), dict.fromkeys(ks)))),
                    'set': (('add', lambda: adds(P.pset(), ks)), ('evolver', lambda: ev_adds(P.pset([3]), ks)), ('update', lambda: P.pset().update(ks)), ('checked', lambda: adds(CS(), ks))), 'bag': (('add', lambda: adds(P.pbag([]), ks)), ('update', lambda: P.pbag([4]).update(ks)))}[kind]:
        Ctr.n = Ctr.h = 0
        f()
        ctx.counters['insertions'] += n
        ctx.check_that(Ctr.h <= 16 * n and Ctr.n <= 16 * n, '%s grown to %d by %s: hashes or compares in proportion to the size' % (kind, n, name), hashes_per_element=Ctr.h / n, comparisons_per_element=Ctr.n / n)
    ctx.note('growth', kind, n, ks[0].h)


def big_growth(ctx, rng, kind, n=260000):
    """The same for one big collection: growth in steps of any fixed size shows."""
    ks = keys(rng, n)
    Ctr.n = Ctr.h = 0
    {'map': lambda: ev_map(P.pmap(), dict.fromkeys(ks)), 'set': lambda: ev_adds(P.pset(), ks), 'bag': lambda: P.pbag(ks)}[kind]()
    ctx.counters['insertions'] += n
    ctx.check_that(Ctr.h <= 16 * n and Ctr.n <= 16 * n, '%s grown to %d: hashes or compares in proportion to the size' % (kind, n), hashes_per_element=Ctr.h / n, comparisons_per_element=Ctr.n / n)
    ctx.note('big', kind, n, ks[0].h)


# ------------------------------------------------------------------ lists and deques
def lists(ctx, rng, n):
    l = rng.choice([lambda: P.plist(range(n)), lambda: P.plist().mcons(range(n)), lambda: P.plist(range(n)).reverse(), lambda: P.plist(range(n), reverse=True)])()
    x = object()
    for name, f in (('cons', lambda: l.cons(x)), ('rest', lambda: l.rest), ('first', lambda: l.first), ('mcons', lambda: l.mcons([x, x])), ('near index', lambda: l[3]), ('split near', lambda: l.split(3)), ('bool', lambda: bool(l))):
        cheap(ctx, 'list of %d: %s' % (n, name), f)
    same_cell(ctx, 'rest of a cons', l.cons(x).rest, l)
    same_cell(ctx, 'rest', l.rest, l.rest)
    same_cell(ctx, 'second list of a split', l.split(3)[1], l.rest.rest.rest)
    ctx.note('list', n, rng.random())


def same_cell(ctx, what, got, want):
    ctx.counters['identity'] += 1
    ctx.check_that(got is want, 'list: %s is not the shared list' % what)


def deques(ctx, rng, n):
    ml = rng.choice([None, n, n + 10])
    d = rng.choice([lambda: P.pdeque(range(n), ml), lambda: P.pdeque(maxlen=ml).extend(range(n)), lambda: P.pdeque(range(n // 2), ml).extend(range(n // 2)), lambda: P.pdeque(range(n // 2), ml).extendleft(range(n // 2)), lambda: P.pdeque(range(n), ml).reverse()])()
    x = object()
    what = 'deque of %d (maxlen %s): ' % (len(d), ml)
    ops = [('append', lambda w: w.append(x)), ('appendleft', lambda w: w.appendleft(x)), ('pop', lambda w: w.pop()), ('popleft', lambda w: w.popleft()), ('extend', lambda w: w.extend([x, x])), ('extendleft', lambda w: w.extendleft([x])), ('left', lambda w: w.left), ('right', lambda w: w.right), ('len', lambda w: len(w))]
    # an end operation is constant except when one side ran empty: allow a few expensive ones in a mixed history
    for name, f in ops:
        w, dear, slow = d, [], []
        for i in range(30):
            b = peak_of(lambda: f(w))
            if b > BYTES:
                dear.append(b)
            n2 = bytecodes_of(lambda: f(w), 3 * OPS)
            if n2 > OPS:
                slow.append(n2)
            r = f(w)
            w = r if isinstance(r, P.PDeque) else w
        ctx.counters['measured'] += 30
        ctx.check_that(len(dear) <= (3 if name not in ('left', 'right', 'len') else 30), what + name + ' allocates in proportion to the size again and again', expensive=dear)
        ctx.check_that(len(slow) <= (3 if name not in ('left', 'right') else 30), what + name + ' does work in proportion to the size again and again', bytecodes=slow)
    # draining from either side costs a constant per element on average
    for name, f in (('pop', lambda w: w.pop()), ('popleft', lambda w: w.popleft()), ('both', None)):
        m = min(len(d), 1500)
        w = P.pdeque(range(m)).extend([1]) if rng.random() < 0.5 else P.pdeque(range(m))

        def drain():
            q, i = w, 0
            while q:
                q = (q.pop() if i % 2 else q.popleft()) if f is None else f(q)
                i += 1
                if f is None and i > 40:
                    return
        per = bytecodes_of(drain, 3000 * m + 10**5) / max(1, m)
        ctx.check_that(per <= 1500, what + 'draining by %s is not linear' % name, bytecodes_per_element=per)
    ctx.note('deque', n, ml, rng.random())


# ------------------------------------------------------------------ time: catches linear work that neither allocates nor runs bytecode
def best(f, reps, inner):
    t = 10**12
    for _ in range(reps):
        a = time.perf_counter_ns()
        for _ in range(inner):
            f()
        t = min(t, time.perf_counter_ns() - a)
    return t / inner


def timing(ctx, rng, which):
    small, large = 1500, (1000000 if ctx.impl == 'c' and which == 'vec' else 200000)
    x = object()

    def ops(n):
        i = n // 2 + 7
        if which == 'vec':
            v = P.pvector(range(n))
            e = v.evolver()
            e.set(3, 1).append(4)
            return {'get': lambda: v[i], 'set': lambda: v.set(i, x), 'append': lambda: v.append(x), 'evolver set': lambda: v.evolver().set(i, x).persistent(), 'evolver append': lambda: v.evolver().append(x).persistent(), 'mset': lambda: v.mset(i, x, 4, x), 'len': lambda: len(v), 'evolver get': lambda: e[i], 'kept evolver set': lambda: e.set(i, x), 'iterator': lambda: iter(v) if ctx.impl == 'c' else 0,
                    'last': lambda: v[-1], 'extend': lambda: v.extend([x]), 'bool': lambda: bool(v)}
        if which == 'map':
            m = P.pmap({k: k for k in range(n)})
            return {'get': lambda: m[i], 'in': lambda: i in m, 'set': lambda: m.set(i, x), 'remove': lambda: m.remove(i), 'evolver': lambda: m.evolver().set(i, x).persistent(), 'len': lambda: len(m), 'discard': lambda: m.discard(-7)}
        s = P.pset(range(n))
        return {'in': lambda: i in s, 'add': lambda: s.add(i), 'remove': lambda: s.remove(i), 'len': lambda: len(s), 'discard': lambda: s.discard(-7)}
    A, B = ops(small), ops(large)
    for name in A:
        for attempt_ in range(4):
            a, b = best(A[name], 15, 10), best(B[name], 15, 10)
            if b <= 25 * a + 20000:
                break
            time.sleep(0.2)
        else:
            ctx.fail('%s: %s takes time in proportion to the size' % (which, name), ns_small=a, ns_large=b, sizes=(small, large))
        ctx.counters['timed'] += 1
    ctx.note('timing', which, large)


def run(ctx):
    gc.collect()
    gc.freeze()
    sizes = [1500, 2081, 33000, 33825, 70000]
    if ctx.thorough:
        sizes += [5000, 32769, 32801, 65569, 131072]
    mk = [P.pvector, CV] + ([python_pvector] if ctx.impl == 'c' else [])
    cases = [('vec', (f, r, n)) for f in mk for r in VROUTES for n in sizes]
    msizes = [1500, 6000] + ([40000] if ctx.thorough else [])
    cases += [('map', (r, n)) for r in MROUTES for n in msizes] + [('set', (r, n)) for r in SROUTES for n in msizes] + [('bag', (r, n)) for r in BROUTES for n in msizes]
    cases += [('list', (n,)) for n in (1500, 9000, 50000)] * 3 + [('deque', (n,)) for n in (1500, 9000)] * 4
    cases += [('growth', (k, n)) for k in ('map', 'set', 'bag') for n in msizes]
    cases += [('big', (k,)) for k in ('map', 'set', 'bag')]
    for (kind, a), rng in ctx.items('cost', cases):
        {'big': big_growth, 'vec': vectors, 'map': maps, 'set': sets, 'bag': bags, 'list': lists, 'deque': deques, 'growth': growth}[kind](ctx, rng, *a)
    if ctx.shard == 0 or ctx.only is not None:
        for i, rng in ctx.cases('timing', 3, scale=False):
            timing(ctx, rng, ('vec', 'map', 'set')[i])
