"""C18: hostile use of the C extension compiled with AddressSanitizer and UndefinedBehaviorSanitizer.

The oracle is the sanitizer (plus a canary on every element that comes out of a vector); the workloads try to make the extension touch
memory it should not: re-entrant element code, argument fuzzing, collections at every allocation, odd life times, interpreter shutdown."""
import weakref, copy, gc, operator, os, pickle, subprocess, sys, weakref
import pyrsistent as P
from .base import *
from . import fam, c03, c09
from .cmodel import routes

V = P.pvector
CANARY = 0x5A17


# ------------------------------------------------------------------ re-entrant elements
class World:
    def __init__(self, rng):
        self.rng = rng
        self.vecs, self.evs, self.its, self.refs = [], [], [], []
        self.budget, self.depth = 0, 0
        self.count = Counter()
        self.on = False


W = None


def hook(site):
    w = W
    if w is None or not w.on or w.budget <= 0 or w.depth >= 3:
        return
    if w.rng.random() < 0.5:
        return
    w.budget -= 1
    w.depth += 1
    w.count[site] += 1
    try:
        act(w)
    except Leave:
        raise
    except Exception:
        pass
    finally:
        w.depth -= 1
    if w.rng.random() < 0.06:
        raise Leave(site)


class Leave(Exception):
    pass


class HE:
    """Element whose special methods run arbitrary code on the shared world."""
    __slots__ = ('ident', 'canary', 'out', '__weakref__')

    def __init__(self, ident, out=None):
        self.ident, self.canary, self.out = ident, CANARY, out

    def __eq__(self, o):
        hook('eq')
        return isinstance(o, HE) and self.ident == o.ident

    def __ne__(self, o):
        hook('ne')
        return not (isinstance(o, HE) and self.ident == o.ident)

    def __lt__(self, o):
        hook('lt')
        return isinstance(o, HE) and self.ident < o.ident

    __gt__ = __le__ = __ge__ = __lt__

    def __hash__(self):
        hook('hash')
        return self.ident

    def __repr__(self):
        hook('repr')
        return 'HE'

    def __reduce__(self):
        hook('reduce')
        return HE, (self.ident,)

    def __del__(self):
        hook('del')


class Idx:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        hook('index')
        return self.i


class HIter:
    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        hook('iter')
        for x in self.items:
            hook('next')
            yield x

    def __len__(self):
        hook('len')
        return W.rng.choice([0, 3, 1000]) if W and W.on else 0


class HSeq:
    def __init__(self, items):
        self.items = list(items)

    def __getitem__(self, i):
        hook('getitem')
        return self.items[i]


def weight(v, cap=300):
    """Number of elements in v and the vectors in it, up to the cap."""
    n = len(v)
    if n > cap:
        return n
    for x in v:
        if isinstance(x, P.PVector):
            n += weight(x, cap - n)
            if n > cap:
                break
    return n


def el(w):
    r = w.rng.random()
    if r < 0.75:
        return HE(w.rng.randrange(6), w.rng.choice(w.vecs) if w.vecs and r < 0.1 else None)
    if r < 0.8 and w.evs:
        return w.rng.choice(w.evs)
    if r < 0.85 and w.vecs:
        v = w.rng.choice(w.vecs)
        if weight(v) <= 300:               # vectors in vectors in vectors: keep repr, hash and == from exploding
            return v
    if r < 0.9 and w.its:
        return w.rng.choice(w.its)
    return w.rng.randrange(5)


def some(w, n=None):
    n = w.rng.choice([0, 1, 2, 5, 31, 32, 33, 64]) if n is None else n
    return [el(w) for _ in range(n)]


def items(w):
    xs = some(w)
    k = w.rng.randrange(6)
    if k == 0:
        return HIter(xs)
    if k == 1:
        return HSeq(xs)
    if k == 2 and w.vecs:
        return w.rng.choice(w.vecs)
    if k == 3 and w.its:
        return w.rng.choice(w.its)
    if k == 4:
        return (x for x in HIter(xs))
    return xs


def ix(w, n):
    r = w.rng
    i = r.choice([0, -1, n - 1, n, -n, -n - 1, 31, 32, 33, n // 2, r.randrange(-n - 2, n + 3)])
    return Idx(i) if r.random() < 0.2 else i


def keep(w, lst, x, cap):
    lst.append(x)
    if len(lst) > cap:
        old = lst.pop(w.rng.randrange(len(lst)))
        del old


def act(w):
    """One random action on the world."""
    r = w.rng
    k = r.randrange(30)
    v = r.choice(w.vecs) if w.vecs else None
    e = r.choice(w.evs) if w.evs else None
    if k < 3:
        if w.vecs and r.random() < 0.6:
            i = r.randrange(len(w.vecs))
            v = None
            del w.vecs[i]                  # may be the last reference
        elif w.evs:
            i = r.randrange(len(w.evs))
            e = None
            del w.evs[i]
    elif k == 3:
        gc.collect(r.choice([0, 1, 2]))
    elif k == 4:
        keep(w, w.vecs, V(items(w)), 8)
    elif k == 5 and v is not None:
        if len(v) < 2500:
            keep(w, w.vecs, v.extend(items(w)), 8)
    elif k == 6 and v is not None:
        keep(w, w.vecs, v.append(el(w)), 8)
    elif k == 7 and v is not None:
        keep(w, w.vecs, v.set(ix(w, len(v)), el(w)), 8)
    elif k == 8 and v is not None:
        n = len(v)
        keep(w, w.vecs, v.mset(ix(w, n), el(w), ix(w, n), el(w), ix(w, n), el(w)), 8)
    elif k == 9 and v is not None:
        keep(w, w.vecs, v.delete(ix(w, len(v))) if r.random() < 0.5 else v.delete(ix(w, len(v)), ix(w, len(v))), 8)
    elif k == 10 and v is not None:
        keep(w, w.vecs, v.remove(el(w)), 8)
    elif k == 11 and v is not None:
        keep(w, w.vecs, v[ix(w, len(v)):ix(w, len(v)):r.choice([None, 1, 2, -1, Idx(1)])], 8)
    elif k == 12 and v is not None:
        v[ix(w, len(v))]
        v.index(el(w)) if r.random() < 0.5 else v.index(el(w), ix(w, len(v)), ix(w, len(v)))
    elif k == 13 and v is not None:
        v.count(el(w))
        el(w) in v
    elif k == 14 and v is not None:
        o = r.choice(w.vecs)
        r.choice([operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge])(v, r.choice([o, list(o), V(list(v))]))
    elif k == 15 and v is not None:
        hash(v)
    elif k == 16 and v is not None and len(v) < 200 and w.depth < 2:
        repr(v)
    elif k == 17 and v is not None:
        keep(w, w.its, iter(v), 4)
    elif k == 18 and w.its:
        it = r.choice(w.its)
        for _ in range(r.randrange(1, 40)):
            x = next(it, None)
            if type(x) is HE:
                assert x.canary == CANARY
    elif k == 19 and v is not None:
        keep(w, w.evs, v.evolver(), 5)
    elif k in (20, 21, 22) and e is not None:
        n = len(e)
        j = r.randrange(7)
        if j == 0:
            e[ix(w, n)] = el(w)
        elif j == 1:
            e.set(ix(w, n), el(w)).append(el(w))
        elif j == 2:
            e.append(el(w))
        elif j == 3:
            e.extend(items(w))
        elif j == 4:
            del e[ix(w, n)]
        elif j == 5:
            e.delete(ix(w, n))
        else:
            x = e[ix(w, n)]
            assert type(x) is not HE or x.canary == CANARY
    elif k in (23, 24) and e is not None:
        keep(w, w.vecs, e.persistent(), 8)
    elif k == 25 and v is not None:
        keep(w, w.refs, weakref.ref(v, lambda _: hook('weakref')), 10)
    elif k == 26 and v is not None:
        x = v.tolist()
        for y in x:
            assert type(y) is not HE or y.canary == CANARY
    elif k == 27 and v is not None and len(v) < 300:
        keep(w, w.vecs, v * r.choice([0, 1, 2, 3, -1]), 8)
    elif k == 28 and v is not None:
        keep(w, w.vecs, v.transform([lambda i: (hook('pred'), i % 3 == 0)[1]], lambda x: (hook('command'), x)[1]), 8)
    elif k == 29:
        if r.random() < 0.3:
            w.vecs.clear()
        elif r.random() < 0.5:
            w.its.clear()
        else:
            w.evs.clear()
    w.count['actions'] += 1


def check_world(ctx, w):
    """Every reachable element is still one of ours."""
    for v in w.vecs:
        n = 0
        for x in v:
            n += 1
            if type(x) is HE:
                ctx.check_that(x.canary == CANARY, 'element corrupted')
            else:
                ctx.check_that(isinstance(x, (int, P.PVector)) or hasattr(x, 'persistent') or hasattr(x, '__next__'), 'foreign object in a vector', got=type(x))
        ctx.check_that(n == len(v), 'length and iteration disagree', got=n, want=len(v))
        ctx.counters['canaries'] += n


def reentrant(ctx, rng, steps):
    global W
    w = W = World(rng)
    for _ in range(3):
        keep(w, w.vecs, V(some(w, rng.choice([0, 1, 5, 31, 32, 33, 64, 65, 100, 1056, 1057, 1100]))), 8)
    keep(w, w.evs, w.vecs[0].evolver(), 5)
    for i in range(steps):
        w.budget, w.on = rng.choice([0, 3, 10, 30]), True
        try:
            act(w)
        except (Leave, TypeError, ValueError, IndexError, AttributeError, KeyError, RecursionError):
            ctx.counters['failing_ops'] += 1
        except Exception as e:
            w.on = False
            ctx.fail('unexpected exception from the extension', got=e)
        finally:
            w.on = False
    check_world(ctx, w)
    for k, c in w.count.items():
        ctx.counters['reenter.' + k] += c
    ctx.counters['reentries'] += sum(c for k, c in w.count.items() if k != 'actions')
    ctx.note('reentrant', steps, sum(w.count.values()), rng.random())
    w.vecs, w.evs, w.its, w.refs = [], [], [], []
    W = None
    del w
    gc.collect()


# ------------------------------------------------------------------ aimed re-entrancy: the object being operated on is dropped or changed by its own elements
class Bomb:
    """Runs a given function once, in one of its special methods."""
    def __init__(self, site, f):
        self.site, self.f = site, f

    def _go(self, site):
        if site == self.site and self.f is not None:
            f, self.f = self.f, None
            f()

    def __eq__(self, o):
        self._go('eq')
        return False

    def __hash__(self):
        self._go('hash')
        return 1

    def __lt__(self, o):
        self._go('lt')
        return True

    __gt__ = __le__ = __ge__ = __lt__

    def __repr__(self):
        self._go('repr')
        return 'Bomb'

    def __del__(self):
        self._go('del')


def churn():
    """Recycle freed nodes and objects with other content."""
    x = [V([object()] * n) for n in (1, 32, 33, 65, 1057)]
    for v in x:
        e = v.evolver()
        e[0] = 1
        e.append(2)
        e.persistent()
    del x
    gc.collect(0)


def aimed(ctx, rng, combo=None):
    n = rng.choice([1, 2, 5, 31, 32, 33, 40, 64, 65, 1056, 1057, 1090]) if combo is None else combo[0]
    box = {}
    where = rng.choice([0, n - 1, n // 2, min(31, n - 1), min(32, n - 1)])
    site = rng.choice(['eq', 'hash', 'lt', 'repr', 'del'])
    what = rng.randrange(NWHAT)
    if combo:
        site, what = combo[1:3]

    def go():
        ctx.counters['bombs'] += 1
        if what in (0, 1):
            box.pop('v', None)
            box.pop('e', None)
        elif what == 2 and 'e' in box:
            for i in range(3):
                box['e'].append(i)
        elif what == 3 and 'e' in box:
            box['p'] = box['e'].persistent()
        elif what == 4 and 'e' in box:
            del box['e'][0]
        elif what == 5 and 'e' in box:
            box['e'][where] = 5
        elif what == 6 and 'e' in box:
            box['e'].extend(range(40))
        elif what == 7 and 'it' in box:
            next(box['it'], None)
            list(box['it'])
        elif what == 8:
            box.clear()
        elif what == 9 and 'it' in box:
            list(box.pop('it'))
        elif what == 10 and 'v' in box:
            v = box.pop('v')
            box['p'] = v.set(where, 1).append(2)
            hash(box['p']) if site != 'hash' else 0
        elif what == 11 and 'e' in box:
            e = box.pop('e')
            e.set(0, 1).append(2).persistent()
        churn()
        if rng.random() < 0.5:
            gc.collect()

    def fill(b):
        l = [Bomb('', None) if rng.random() < 0.2 else rng.randrange(3) for _ in range(n)]
        l[where] = b
        return l
    l = fill(Bomb(site, go))
    box['v'] = V(l)
    box['e'] = box['v'].evolver() if rng.random() < 0.5 else V(fill(Bomb(site, go))).evolver()
    if rng.random() < 0.5:
        box['e'].append(Bomb(site, go))
    if rng.random() < 0.3:
        box['e'][where] = Bomb(site, go)
    own = rng.randrange(4) if combo is None else combo[4]
    box['it'] = iter(box['v'])
    for _ in range(rng.choice([0, 1, n - 1, n])):
        next(box['it'], None)
    if site == 'del':
        del l
    if own & 1:
        box.pop('v')
    if own & 2:
        box.pop('e')
    probe = Bomb('', None)
    pick = lambda k, d: box.get(k, d)
    T = [lambda: pick('v', [])[0:n:2], lambda: hash(pick('v', ())), lambda: pick('v', []).count(probe), lambda: pick('v', []).index(probe), lambda: probe in pick('v', []), lambda: pick('v', []).remove(probe), lambda: pick('v', 0) == V(fill(1)),
         lambda: pick('v', V()) < V(fill(1)), lambda: V(fill(1)) > pick('v', V()), lambda: repr(pick('v', 0)), lambda: pick('e', {}).__setitem__(where, 1), lambda: pick('e', {}).__delitem__(where), lambda: pick('e', []).append(probe),
         lambda: pick('e', V()).extend([1]), lambda: pick('e', V().evolver()).persistent(), lambda: box.pop('e', 0) and 0, lambda: box.pop('v', 0) and 0, lambda: list(pick('it', ())), lambda: pick('v', V()) == pick('v', V()),
         lambda: pick('e', V().evolver()).set(n + 1 if 'e' in box else 0, 3), lambda: box.pop('v').delete(where), lambda: box.pop('v').set(where, 1), lambda: box.pop('v').extend(box.pop('it')), lambda: box.pop('e').set(where, 2).persistent(),
         lambda: sorted([box.pop('v'), V(fill(2))]), lambda: box.pop('v').index(probe), lambda: box.pop('v').count(probe), lambda: box.pop('v').remove(probe), lambda: hash(box.pop('v')), lambda: repr(box.pop('v')),
         lambda: V(x for x in box.pop('it')), lambda: next(box.pop('it'), 0), lambda: box.pop('e').__delitem__(where), lambda: box.pop('e').persistent(), lambda: copy.copy(box.pop('v')), lambda: box.pop('v').tolist()]
    done = []
    assert len(T) == NOPS
    for t in rng.sample(range(len(T)), rng.choice([1, 2, 3, 6])) if combo is None else [combo[3]]:
        r = attempt(T[t])
        done.append(t)
        del r
    ctx.note('aimed', n, where, site, what, done)
    for k in ('v', 'p'):
        if k in box and isinstance(box[k], P.PVector):
            ctx.counters['canaries'] += sum(1 for x in box[k] if isinstance(x, (Bomb, int)))
    box.clear()
    gc.collect(1)


NWHAT, NOPS = 12, 36
SITES = ['eq', 'hash', 'lt', 'repr', 'del']
COMBOS = [(n, s, w, t, o) for n in (3, 33) for s in SITES for w in range(NWHAT) for t in range(NOPS) for o in range(4)]


# ------------------------------------------------------------------ argument fuzzing
def arg(rng, pool, n):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0, 1, -1, n, n - 1, -n, -n - 1, n + 1, 31, 32, 33, 2**31 - 1, 2**31, -2**31, 2**32, 2**32 - 1, 2**32 + 1, 2**63 - 1, -2**63, 2**63, -2**64, 2**100, rng.randrange(-n - 2, n + 2)])
    if r < 0.4:
        return slice(*[rng.choice([None, 0, 1, -1, n, -n, 2**63 - 1, -2**63, 2**70, 2, -2, 'x']) for _ in range(3)])
    if r < 0.6:
        return rng.choice(pool)
    if r < 0.7:
        return rng.choice([None, 'a', '', b'x', 1.5, float('nan'), float('inf'), True, (), (1, 2), [], [1], {}, {1: 2}, set(), object(), int, type, len, Ellipsis, NotImplemented, range(5), range(2**62)])
    if r < 0.8:
        return iter([1, 2, 3])
    return rng.choice([list, tuple])(range(rng.choice([0, 1, 2, 31, 32, 33, 100])))


SKIP = {'__class__', '__init_subclass__', '__subclasshook__', '__class_getitem__', '__doc__', '__abstractmethods__'}


def fuzz(ctx, rng):
    n = size(rng, ctx, small=0.8, cap=1200)
    v = V(range(n))
    e = v.evolver()
    it = iter(v)
    pool = [v, e, it, V(), V().evolver(), v.append, V([v, e]), type(v), type(e), type(it), v.extend(v) if n < 600 else v]
    for _ in range(rng.choice([10, 40])):
        o = rng.choice([v, v, e, e, it, type(v), type(e), type(it), pool[3], pool[4]])
        names = [x for x in dir(o) if x not in SKIP]
        name = rng.choice(names)
        if name in ('__mul__', '__rmul__', '__imul__'):
            args = (rng.choice([0, 1, 2, 3, -1, -2**63] + ([2**63 - 1, 2**62] if n >= 4 else [])),) if isinstance(o, P.PVector) else ()
        elif isinstance(o, type):
            if name in ('mro', '__subclasses__', '__dict__', 'register'):
                continue
            args = tuple(arg(rng, pool, n) for _ in range(rng.randrange(0, 4)))
            if name in ('__mul__', '__rmul__', '__setattr__', '__delattr__', '__imul__'):
                continue
        else:
            args = tuple(arg(rng, pool, n) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])))
        if any(isinstance(a, range) and len(a) > 10**6 for a in args):
            args = tuple(a for a in args if not isinstance(a, range))
        ctx.counters['fuzz_calls'] += 1
        try:
            r = getattr(o, name)
            if callable(r):
                r = r(*args)
            if isinstance(r, P.PVector) and len(r) < 5000:
                list(r)
                pool.append(r)
            if len(pool) > 25:
                pool.pop(rng.randrange(len(pool)))
        except MemoryError:
            ctx.counters['memory_errors'] += 1
        except Exception:
            ctx.counters['failing_ops'] += 1
        ctx.seen('fuzzed', '%s.%s' % (type(o).__name__ if not isinstance(o, type) else 'type', name))
        if isinstance(e, list):
            break
    r = attempt(e.persistent)
    ctx.check_that(r[0] == 'ok', 'evolver unusable after fuzzing', got=r)
    ctx.check_that(list(v) == list(range(n)), 'vector changed by fuzzing', size=n)
    ctx.note('fuzz', n, rng.random())


# ------------------------------------------------------------------ life times, sizes
def lifetimes(ctx, rng):
    """Build a forest of vectors sharing nodes, release it in random order with garbage collections and new vectors in between."""
    class Tok:
        pass
    forest, others = [V([Tok() for _ in range(size(rng, ctx, small=0.5, cap=3000))])], []
    for _ in range(rng.choice([10, 30])):
        v = rng.choice(forest)
        n = len(v)
        k = rng.randrange(9)
        if k == 0:
            forest.append(v.append(Tok()))
        elif k == 1 and n:
            forest.append(v.set(rng.randrange(n), Tok()))
        elif k == 2:
            forest.append(v.extend([Tok() for _ in range(rng.choice([1, 31, 32, 33, 1024, 1056]))]) if n < 4000 else v)
        elif k == 3:
            forest.append(v[rng.randrange(n + 1):rng.randrange(n + 1)])
        elif k == 4:
            others.append(v.evolver())
        elif k == 5:
            others.append(iter(v))
        elif k == 6 and n:
            e = v.evolver()
            for _ in range(rng.choice([1, 2, 40])):
                e[rng.randrange(n)] = Tok()
            if rng.random() < 0.5:
                forest.append(e.persistent())
            if rng.random() < 0.5:
                e[rng.randrange(n)] = Tok()
                others.append(e)
        elif k == 7 and n:
            forest.append(v.delete(rng.randrange(n)))
        elif k == 8:
            forest.append(V([v, forest, others]))
        if rng.random() < 0.4 and len(forest) > 1:
            forest.pop(rng.randrange(len(forest)))
        if rng.random() < 0.4 and others:
            others.pop(rng.randrange(len(others)))
        v = e = None
        if rng.random() < 0.3:
            gc.collect(rng.choice([0, 1, 2]))
        if rng.random() < 0.3:
            churn()
    for v in forest:
        c = 0
        for x in v:
            c += 1
            type(x)
        ctx.check_that(c == len(v), 'length and iteration disagree')
        ctx.counters['canaries'] += c
    rng.shuffle(forest)
    while forest:
        forest.pop()
        if rng.random() < 0.2:
            gc.collect()
    others.clear()
    ctx.note('lifetimes', rng.random())


class Tail:
    """Uses an iterator (and what else it is given) while being destroyed."""
    acts = ()

    def __del__(self):
        for a in self.acts:
            attempt(a)


class Fuse:
    use = None

    def __del__(self):
        if Fuse.use is not None:
            Fuse.use()


def owner(ctx, rng):
    """An evolver that alone owns what it works on: whatever an operation lets go of (elements in the tree, the tail or the pending part, the vector it began
    with, by weak references) uses the evolver at that moment."""
    n, pend = rng.choice([0, 1, 2, 5, 31, 32, 33, 40, 64, 65, 1057]), rng.choice([0, 1, 3, 40])
    box, left, refs = {}, [0], []
    narrow = rng.random() < 0.4

    def fresh():
        return Fuse() if rng.random() < 0.6 else Own()

    def put(e, i):
        e[i] = fresh()         # the statement: nothing but the interpreter's stack holds the new element

    def acts(e):
        m = len(e)
        i = rng.choice([0, m - 1, m // 2, rng.randrange(m + 1)])
        if last and rng.random() < 0.5:
            i = last[0]
        if narrow and last and rng.random() < 0.7:
            # the same place again and again
            i = last[0]
            return rng.choice([lambda: e.set(i, fresh()), lambda: put(e, i), lambda: e.delete(i)])
        return rng.choice([lambda: e.set(i, fresh()), lambda: e.set(i, fresh()), lambda: put(e, i), lambda: e[i], lambda: e.append(fresh()), lambda: e.extend([fresh(), 1]), lambda: e.extend(fresh() for _ in range(3)),
                           lambda: e.delete(i), lambda: e.__delitem__(i), lambda: box.__setitem__('p', e.persistent()), lambda: list(e.persistent()), lambda: len(e.persistent().evolver()), lambda: e.is_dirty(),
                           lambda: gc.get_referents(e) and 0, lambda: e.persistent() and 0, lambda: watch(e.persistent()), churn, lambda: gc.collect() and 0])
    last = []

    def use(*_):
        e = box.get('e')
        if left[0] > 0 and e is not None:
            left[0] -= 1
            ctx.counters['reentries'] += 1
            attempt(acts(e))

    def watch(v):
        refs.append(weakref.ref(v, use))
        if len(refs) > 6:
            refs.pop(0)
    Fuse.use = use
    try:
        v = V([fresh() for _ in range(n)])
        watch(v)
        box['e'] = v.evolver()
        for _ in range(rng.choice([0, 0, 1, 3])):
            attempt(lambda: box['e'].set(rng.randrange(n + 1), fresh()))
        for _ in range(pend):
            box['e'].append(fresh())
        if rng.random() < 0.7:
            v = None
        done = []
        for _ in range(rng.randrange(2, 9)):
            e = box['e']
            last[:] = [rng.randrange(len(e) + 1)]
            left[0] = rng.choice([0, 1, 1, 2, 4])
            f = acts(e)
            e = None
            attempt(f)
            f = None
            left[0] = 0
            e = box['e']
            ok = sum(type(e[i]) in (Fuse, Own, int) for i in range(len(e)))
            ctx.check_that(ok == len(e), 'an evolver used while it let go of objects holds something never stored', size=n, pending=pend)
            ctx.counters['canaries'] += ok
            if rng.random() < 0.3:
                box.pop('p', None)
        ctx.note('owner', n, pend, rng.random())
        left[0] = 3
        box.pop('e')
        e = v = None
        box.clear()
    finally:
        Fuse.use = None
        refs.clear()
    gc.collect(0)


def exhaust(ctx, rng):
    """An iterator that holds the last reference to its vector, whose elements use the iterator when they go."""
    n = rng.choice([1, 1, 2, 5, 31, 32, 33, 64, 65, 1057])
    ts = [Tail() for _ in range(rng.choice([1, 1, 2, n]))]
    l = [rng.choice(ts) for _ in range(n)]
    v = V(l) if rng.random() < 0.7 else V(l[:1]).extend(l[1:])
    its = [iter(v) for _ in range(rng.choice([1, 1, 2]))]
    how = rng.randrange(4)
    for t in ts:
        t.acts = [rng.choice([lambda it=it: next(it), lambda it=it: list(it), lambda it=it: V(it), lambda it=it: V([1]).extend(it), lambda it=it: gc.get_referents(it), lambda it=it: gc.get_referents(it), lambda: churn()]) for it in its for _ in range(rng.choice([1, 2]))]
    ctx.note('exhaust', n, how, len(ts), len(its))
    ctx.counters['reentries'] += 1
    del v, l, t, ts
    it = its[0]
    if len(its) > 1:
        list(its[1])
    its = None
    if how == 0:
        for _ in it:
            _ = None
    elif how == 1:
        list(it)
    elif how == 2:
        while next(it, None) is not None:
            pass
    else:
        V([0]).extend(it)
    churn()
    attempt(next, it)
    attempt(next, it)
    it = None
    gc.collect(0)


class Own:
    pass


def boundaries(ctx):
    sizes = sorted(set(BOUNDARY) | set(ctx.consts['sizes']))
    if ctx.thorough or ctx.spec.get('ext') == 'asan':
        sizes += [32767, 32800, 32801]
    els = list(range(max(sizes) + 3))
    for n, rng in ctx.items('boundary', sizes):
        ctx.note('boundary', n)
        l = els[:n]
        vs = [V(l)]
        if n < 5000:
            for how, mk in routes(P, l):
                vs.append(mk())
        for v in vs:
            for i in {0, n - 1, n, n + 1, -1, -n, -n - 1, 31, 32, 33, n - 32, n - 33, n // 2}:
                attempt(lambda: v[i])
                attempt(lambda: v.set(i, None))
                if n < 5000:
                    attempt(lambda: v.delete(i))
                    attempt(lambda: v[i:])
                    attempt(lambda: v.evolver().delete(i).persistent())
                attempt(lambda: v.evolver().set(i, None).append(1).persistent())
                attempt(lambda: v.evolver().set(i, None).set(0, 1).set(-1, 2).persistent())
            for k in (1, 2, 31, 32, 33, 1024, 1056, 1057):
                w = v.extend(range(k))
                ctx.check_that(len(w) == n + k and w[n + k - 1] == k - 1 and (n == 0 or w[n - 1] is l[-1]), 'extend wrong', size=n, by=k)
                e = v.evolver()
                e.extend(range(k))
                e.persistent()
            # elements nothing else refers to: whoever forgets to own them frees them
            for j, w in enumerate((v.append(Own()), v.append(Own()).append(Own()), v.extend([Own(), Own()]), v.evolver().append(Own()).persistent(), v.set(n, Own()), v.mset(n, Own()))):
                churn()
                t = w[len(w) - 1]
                ctx.check_that(type(t) is Own and type(w[n]) is Own and type(list(w)[n]) is Own, 'an element only the vector refers to was lost', size=n, route=j)
                u = w.append(Own())
                w = t = None
                churn()
                ctx.check_that(type(u[n]) is Own and type(u[len(u) - 1]) is Own, 'an element only the vector refers to was lost', size=n, route=j)
                u = None
            ctx.check_that(list(v) == l, 'content wrong', size=n)
            hash(v), v == V(l), v < V(l), repr(v) if n < 3000 else 0


def deep(ctx):
    kinds = ['vec', 'vec-set', 'evolver', 'evolver-append', 'iterator', 'mixed']
    for kind, rng in ctx.items('deep', kinds):
        x = V([1])
        depth = 30000
        for i in range(depth):
            k = kind if kind != 'mixed' else kinds[i % 5]
            if k == 'vec':
                x = V([x])
            elif k == 'vec-set':
                x = V([0] * 40).set(rng.choice([0, 39]), x)
            elif k == 'evolver':
                e = V([0, 1]).evolver()
                e[0] = x
                x = e
            elif k == 'evolver-append':
                e = V().evolver()
                e.append(x)
                x = e
            else:
                x = iter(V([x]))
        ctx.note('deep', kind, depth)
        try:
            repr(x)
        except RecursionError:
            ctx.counters['recursion_errors'] += 1
        gc.collect()
        x = e = None
        gc.collect()


TEARDOWN = r'''
import sys, gc, random, atexit, weakref, threading
import pyrsistent as P
rng = random.Random(%r)
class D:
    def __init__(s, f=None): s.f = f
    def __del__(s):
        try:
            v = P.pvector([1, 2, 3]) if P is not None else None
            if s.f is not None:
                s.f()
        except Exception:
            pass
V = P.pvector
glob = []
n = rng.choice([0, 1, 32, 33, 1057])
v = V([D() for _ in range(n)])
glob.append(v); glob.append(v.evolver()); glob.append(iter(v))
if n:
    glob[1][0] = D(lambda: glob[0].append(1)); next(glob[2])
l = []; c = V([l, v] * rng.choice([1, 20])); l.append(c); l.append(c.evolver())
e = V([l]).evolver(); e.append(e); e[0] = e; it = iter(V([e, D()])); l.append(it)
w = weakref.ref(c, lambda _: V([1]).append(2))
k = rng.randrange(6)
if k == 0: atexit.register(lambda: glob[1].persistent())
if k == 1: sys.modules['keepme'] = V([v, c, e])
if k == 2: gc.disable()
if k == 3: gc.freeze()
if k == 4: P.pvector = P.v = None
if k == 5: del glob, v, e, c, l, it
def recycle():
    for i in range(200):
        V(range(i * 7))
if rng.random() < 0.5: atexit.register(recycle)
if rng.random() < 0.3:
    t = threading.Thread(target=recycle); t.start()
    t.join()
if rng.random() < 0.2: sys.modules.pop('pvectorc', None); sys.modules.pop('pyrsistent', None)
if rng.random() < 0.2:
    import importlib; sys.modules.pop('pvectorc', None); import pvectorc; x = pvectorc.pvector([1, 2]); y = V([1, 2]) == x
sys.stdout.write('END')
'''


def teardown(ctx):
    for i, rng in ctx.cases('teardown', 12):
        r = subprocess.run([sys.executable, '-c', TEARDOWN % rng.random()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ctx.note('teardown', i, rng.random())
        ctx.counters['teardowns'] += 1
        ctx.check_that(r.returncode == 0 and b'END' in r.stdout, 'interpreter shutdown failed', status=r.returncode, output=r.stdout[-1500:].decode('utf8', 'replace'))


NOMEM = '''
import sys, _testcapi
from pyrsistent import pvector
v = pvector(range(100))
_testcapi.set_nomemory(%d, %d)
try:
    try:
        w = v * 3
    finally:
        _testcapi.remove_mem_hooks()
except MemoryError:
    pass
sys.stdout.write('END')
'''


def nomem(ctx):
    """Known finding: a failing allocation is not noticed by the extension (a null pointer is written through)."""
    try:
        import _testcapi    # noqa: not in every build of CPython
    except ImportError:
        return
    for k, rng in ctx.items('nomem', [0, 1, 2, 3]):
        r = subprocess.run([sys.executable, '-c', NOMEM % (k, k + 1)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        ctx.note('nomem', k)
        ctx.counters['failed_allocations'] += 1
        if r.returncode != 0 or b'END' not in r.stdout:
            ctx.finding('allocation-failure', 'an allocation that fails inside pvector * n crashes the interpreter')


def only_memory(ctx, f, *a):
    """Drives the extension; a wrong result is the business of C02/C03, not of this check."""
    try:
        f(*a)
    except Violation:
        ctx.counters['functional_mismatches'] += 1


def run(ctx):
    if ctx.mode == 'teardown':
        nomem(ctx)
        return teardown(ctx)
    if ctx.mode == 'gc':
        gc.set_threshold(1, 1, 1)        # a collection at every allocation
    if ctx.mode == 'histories':
        boundaries(ctx)
        deep(ctx)
        F = fam.FAMS['vec']
        for i, rng in ctx.cases('model', 80):
            only_memory(ctx, fam.history, ctx, rng, P, F, rng.choice([5, 20]))
        for i, rng in ctx.cases('pair', 60):
            only_memory(ctx, c03.pair_history, ctx, rng, 15)
        for i, rng in ctx.cases('pairev', 60):
            only_memory(ctx, c03.pair_evolvers, ctx, rng, 25)
        for i, rng in ctx.cases('fuzz', 150):
            fuzz(ctx, rng)
        return
    k = 0.15 if ctx.mode == 'gc' else 1
    for i, rng in ctx.cases('reentrant', int(120 * k)):
        reentrant(ctx, rng, rng.choice([20, 80, 200]))
    for i, rng in ctx.cases('aimed', int(700 * k)):
        aimed(ctx, rng)
    if ctx.mode != 'gc':
        for combo, rng in ctx.items('combo', COMBOS):
            aimed(ctx, rng, combo)
    for i, rng in ctx.cases('owner', int(500 * k)):
        owner(ctx, rng)
    for i, rng in ctx.cases('exhaust', int(120 * k)):
        exhaust(ctx, rng)
    for i, rng in ctx.cases('lifetimes', int(60 * k)):
        lifetimes(ctx, rng)
