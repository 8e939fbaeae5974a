"""C12: freeze / thaw / mutant against an independent recursive description of the input."""
import collections
import pyrsistent as P
from pyrsistent._pvector import python_pvector
from .base import *

VT = type(P.pvector())


class MyList(list):
    pass


class MyDict(dict):
    pass


NT = collections.namedtuple('NT', 'p q')


class Rec(P.PRecord):
    a = P.field()
    b = P.field()


class CVec(P.CheckedPVector):
    pass


class CMap(P.CheckedPMap):
    pass


class Leaf:
    """Anything the conversion has to hand through as the same object."""
    def __init__(self, x):
        self.x = x


def key(rng):
    return rng.choice(['a', 'b', 'c', 1, 2, 0, None, '', (1, 2), frozenset([1]), 'k%d' % rng.randrange(30), E(), P.v(1), ('t', P.m()), K('q', 0), K('r', 0), True])


def leaf(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice([0, 1, 'a', '', None, True, 1.5, b'x', 'list', frozenset([1, (2,)])])
    if r < 0.7:
        return E()
    return rng.choice([lambda: MyList([1, [2]]), lambda: MyDict(a=[1]), lambda: collections.OrderedDict(a=[1]), lambda: collections.deque([[1]]),
                       lambda: P.plist([[1], {}]), lambda: P.pdeque([[1]]), lambda: P.pbag([1, 1]), lambda: NT([1], {}), lambda: bytearray(b'x'), lambda: frozenset(), lambda: range(3)])()


BUILTIN = ['list', 'dict', 'defaultdict', 'set', 'tuple']
PERS = ['vec', 'pyvec', 'map', 'pset', 'rec', 'cvec', 'cmap']


def gen(rng, kinds, depth, shared):
    if depth == 0 or rng.random() < 0.25:
        return leaf(rng)
    if shared and rng.random() < 0.1:
        return rng.choice(shared)
    k = rng.choice(kinds)
    n = rng.choice([0, 1, 1, 2, 2, 3, 4]) if rng.random() < 0.97 else 40
    sub = lambda: gen(rng, kinds, depth - 1, shared)
    if k == 'list':
        x = [sub() for _ in range(n)]
    elif k == 'dict':
        x = {key(rng): sub() for _ in range(n)}
    elif k == 'defaultdict':
        x = collections.defaultdict(rng.choice([list, dict, None]))
        for _ in range(n):
            x[key(rng)] = sub()
    elif k == 'set':
        x = {key(rng) for _ in range(n)}
    elif k == 'tuple':
        x = tuple(sub() for _ in range(n))
    elif k == 'vec':
        x = P.pvector([sub() for _ in range(n)])
    elif k == 'pyvec':
        x = python_pvector([sub() for _ in range(n)])
    elif k == 'map':
        x = P.pmap({key(rng): sub() for _ in range(n)})
    elif k == 'pset':
        x = P.pset([key(rng) for _ in range(n)])
    elif k == 'rec':
        x = Rec(a=sub(), b=sub())
    elif k == 'cvec':
        x = CVec([sub() for _ in range(n)])
    else:
        x = CMap({key(rng): sub() for _ in range(n)})
    shared.append(x)
    return x


# Descriptions: ('seq', kind, [children]) ('map', kind, [(key, child)]) ('set', kind, [elements]) ('same', obj)
def describe_frozen(x, strict):
    t = type(x)
    if t is list or (strict and isinstance(x, P.PVector)):
        return 'seq', 'vec', [describe_frozen(y, strict) for y in x]
    if t is dict or t is collections.defaultdict or (strict and isinstance(x, P.PMap)):
        return 'map', 'map', [(k, describe_frozen(x[k], strict)) for k in x]
    if t is tuple:
        return 'seq', 'tuple', [describe_frozen(y, strict) for y in x]
    if t is set:
        return 'set', 'pset', list(x)
    return 'same', x


def describe_thawed(x, strict):
    t = type(x)
    if isinstance(x, P.PVector) or (strict and t is list):
        return 'seq', 'list', [describe_thawed(y, strict) for y in x]
    if isinstance(x, P.PMap) or (strict and t is dict):
        return 'map', 'dict', [(k, describe_thawed(x[k], strict)) for k in x]
    if t is tuple:
        return 'seq', 'tuple', [describe_thawed(y, strict) for y in x]
    if isinstance(x, P.PSet):
        return 'set', 'set', list(x)
    return 'same', x


def describe_exact(x):
    """The data itself, for checking that it was not modified."""
    t = type(x)
    if isinstance(x, (list, tuple, P.PVector, collections.deque)):
        return 'seq', t, [describe_exact(y) for y in x], x
    if isinstance(x, (dict, P.PMap)):
        return 'map', t, [(k, describe_exact(v)) for k, v in x.items()], x
    if isinstance(x, (set, P.PSet)):
        return 'set', t, list(x), x
    return 'same', x


TYPES = {'vec': VT, 'map': P.PMap, 'pset': P.PSet, 'tuple': tuple, 'list': list, 'dict': dict, 'set': set}


def match(ctx, got, d, path=''):
    ctx.counters['nodes'] += 1
    if d[0] == 'same':
        ctx.check_that(got is d[1], 'a value that needs no conversion was replaced or changed', at=path, got=got, want=d[1])
        return
    kind = d[1]
    ctx.check_that(type(got) is TYPES[kind], 'wrong container type', at=path, got=type(got), want=kind)
    if d[0] == 'seq':
        ctx.check_that(len(got) == len(d[2]), 'wrong length', at=path, got=got, want=len(d[2]))
        for i, (g, c) in enumerate(zip(got, d[2])):
            match(ctx, g, c, '%s[%d]' % (path, i))
    elif d[0] == 'map':
        ctx.check_that(len(got) == len(d[2]), 'wrong number of keys', at=path, got=got, want=[k for k, _ in d[2]])
        ks = {k: k for k in got}
        for k, c in d[2]:
            ctx.check_that(k in ks and ks[k] is k, 'key lost or replaced', at=path, key=k)
            match(ctx, got[k], c, '%s[%s]' % (path, brief(k, 30)))
    else:
        ctx.check_that(len(got) == len(d[2]) and all(k in got for k in d[2]), 'wrong elements of a set', at=path, got=got, want=d[2])


def unchanged(ctx, d, path=''):
    if d[0] == 'same':
        return
    x = d[3]
    ctx.counters['unchanged_nodes'] += 1
    if d[0] == 'seq':
        now = list(x)
        ok = len(now) == len(d[2]) and all(y is (c[1] if c[0] == 'same' else c[3]) for y, c in zip(now, d[2]))
        ctx.check_that(ok, 'the input was modified', at=path, now=x)
        for i, c in enumerate(d[2]):
            unchanged(ctx, c, '%s[%d]' % (path, i))
    elif d[0] == 'map':
        ok = len(x) == len(d[2]) and all(k in x and x[k] is (c[1] if c[0] == 'same' else c[3]) for k, c in d[2])
        ctx.check_that(ok, 'the input was modified', at=path, now=x)
        for k, c in d[2]:
            unchanged(ctx, c, '%s[%s]' % (path, brief(k, 30)))
    else:
        ctx.check_that(len(x) == len(d[2]) and all(k in x for k in d[2]), 'the input was modified', at=path, now=x)


def scribble(x, seen=None, leaves=False):
    """Mutate every mutable built-in container reachable through built-in containers (not through opaque leaves)."""
    if seen is None:
        seen = set()
    if id(x) in seen:
        return
    seen.add(id(x))
    t = type(x)
    if t in (list, tuple) or isinstance(x, P.PVector):
        for y in list(x):
            scribble(y, seen)
        if t is list:
            x.append('SCRIBBLE')
            x[0] = 'SCRIBBLE'
    elif t in (dict, collections.defaultdict) or isinstance(x, P.PMap):
        for y in list(x.values()):
            scribble(y, seen)
        if t is not Rec and not isinstance(x, P.PMap):
            for k in list(x):
                x[k] = 'SCRIBBLE'
            x['SCRIBBLE'] = 1
    elif t is set:
        x.clear()
        x.add('SCRIBBLE')


def mutable_inside(x, path=''):
    """Path of a mutable built-in container reachable through containers freeze converts, or None."""
    t = type(x)
    if t in (list, dict, set, collections.defaultdict):
        return path or '(top)'
    if t is tuple or isinstance(x, P.PVector):
        for i, y in enumerate(x):
            r = mutable_inside(y, '%s[%d]' % (path, i))
            if r:
                return r
    elif isinstance(x, P.PMap):
        for k, y in x.items():
            r = mutable_inside(y, '%s[%s]' % (path, brief(k, 20)))
            if r:
                return r
    return None


def plain_equal(a, b):
    """Same data: container types equal up to defaultdict -> dict."""
    ta, tb = type(a), type(b)
    if tb is collections.defaultdict:
        tb = dict
    if ta is not tb:
        return False
    if ta in (list, tuple):
        return len(a) == len(b) and all(map(plain_equal, a, b))
    if ta is dict:
        return len(a) == len(b) and all(k in a and plain_equal(a[k], b[k]) for k in b)
    if ta is set:
        return a == b
    return a is b


class Pass(Exception):
    pass


def run(ctx):
    for i, rng in ctx.cases('freeze', 2000):
        kinds = rng.choice([BUILTIN, BUILTIN, BUILTIN + PERS, BUILTIN + PERS, ['list', 'dict', 'vec', 'map'], ['tuple', 'list'], ['tuple', 'dict', 'rec', 'vec']])
        x = gen(rng, kinds, rng.choice([1, 2, 3, 4, 5]), [])
        strict = rng.random() < 0.6
        before = describe_exact(x)
        d = describe_frozen(x, strict)
        ctx.note('freeze', strict, kinds is BUILTIN, x)
        ctx.seen('top_types', type(x).__name__)
        f = P.freeze(x) if strict and rng.random() < 0.5 else P.freeze(x, strict) if rng.random() < 0.5 else P.freeze(x, strict=strict)
        match(ctx, f, d)
        unchanged(ctx, before)
        ctx.check_that(not strict or mutable_inside(f) is None, 'freeze left a mutable container', at=mutable_inside(f), got=f)
        if kinds is BUILTIN:
            ctx.counters['roundtrips'] += 1
            back = P.thaw(f)
            ctx.check_that(plain_equal(back, x), 'thaw(freeze(x)) differs from x', got=back, want=x)
            ctx.check_that(P.thaw(P.freeze(x, strict=False), strict=False) == back, 'non-strict round trip differs', x=x)
            unchanged(ctx, before)
        if strict:
            g = P.freeze(f)
            match(ctx, g, describe_frozen(f, True))
        g = P.freeze(f, strict=False)
        match(ctx, g, describe_frozen(f, False))
        scribble(x)
        if strict:
            match(ctx, f, d)
            ctx.counters['alias_checks'] += 1
        elif not any(k in PERS for k in kinds):
            match(ctx, f, d)
            ctx.counters['alias_checks'] += 1
    for i, rng in ctx.cases('thaw', 2000):
        kinds = rng.choice([['vec', 'map', 'pset', 'tuple'], ['vec', 'map', 'pset', 'tuple'], PERS, PERS + ['list', 'dict', 'tuple', 'set'], ['vec', 'list', 'map', 'dict', 'tuple'], ['tuple', 'vec', 'list']])
        x = gen(rng, kinds, rng.choice([1, 2, 3, 4, 5]), [])
        strict = rng.random() < 0.6
        before = describe_exact(x)
        d = describe_thawed(x, strict)
        ctx.note('thaw', strict, x)
        t = P.thaw(x) if strict and rng.random() < 0.5 else P.thaw(x, strict) if rng.random() < 0.5 else P.thaw(x, strict=strict)
        match(ctx, t, d)
        unchanged(ctx, before)
        if kinds == ['vec', 'map', 'pset', 'tuple']:
            ctx.counters['roundtrips'] += 1
            match(ctx, P.freeze(t), describe_frozen(t, True))
            ctx.check_that(P.thaw(P.freeze(t)) == t, 'thaw(freeze(x)) differs from x', x=t)
        if strict and not {'set', 'rec'} & set(kinds) or not {'list', 'dict', 'set'} & set(kinds):
            t2 = P.thaw(x, strict)
            scribble(t)
            unchanged(ctx, before)
            match(ctx, t2, d)
            ctx.counters['alias_checks'] += 1
    for i, rng in ctx.cases('deep', 12):
        depth = rng.choice([50, 100, 150])
        x = leaf_x = E()
        for j in range(depth):
            x = rng.choice([lambda y: [y], lambda y: {'k': y}, lambda y: (y,), lambda y: [1, y, 2]])(x)
        ctx.note('deep', depth)
        f = P.freeze(x)
        match(ctx, f, describe_frozen(x, True))
        ctx.check_that(plain_equal(P.thaw(f), x), 'deep round trip differs', depth=depth)
    for i, rng in ctx.cases('mutant', 600):
        args = [gen(rng, BUILTIN + ['vec', 'map'], 3, []) for _ in range(rng.randrange(0, 4))]
        kw = {k: gen(rng, BUILTIN + ['vec', 'map', 'tuple'], 3, []) for k in rng.sample(['a', 'b', 'key', 'item', 'o', 'strict'], rng.randrange(0, 4))}
        ret = rng.choice([lambda a, k: gen(rng, BUILTIN, 3, []), lambda a, k: gen(rng, BUILTIN + PERS, 4, []), lambda a, k: P.v([1], {'a': [2]}, *a), lambda a, k: P.m(x=[1], y=P.v({2}), z=(P.v([3]),)), lambda a, k: list(a) + [dict(k)], lambda a, k: (list(a), {'k': [1]}), lambda a, k: None, lambda a, k: rng.choice(a) if a else [[]]])
        got = {}

        @P.mutant
        def fn(*a, **k):
            'doc of fn'
            got['a'], got['k'] = a, k
            if rng.random() < 0.1:
                raise Pass()
            got['ret'] = ret(a, k)
            return got['ret']
        ctx.note('mutant', len(args), sorted(kw))
        ctx.check_that(fn.__name__ == 'fn' and fn.__doc__ == 'doc of fn', 'mutant does not keep name and doc of the function')
        before = describe_exact(args), describe_exact(kw)
        da, dk = [describe_frozen(a, True) for a in args], {k: describe_frozen(a, True) for k, a in kw.items()}
        r = attempt(lambda: fn(*args, **kw))
        ctx.check_that(len(got['a']) == len(args) and set(got['k']) == set(kw), 'arguments not passed on as given', got=got)
        for g, d in zip(got['a'], da):
            match(ctx, g, d)
        for k in kw:
            match(ctx, got['k'][k], dk[k])
        for g in list(got['a']) + list(got['k'].values()):
            ctx.check_that(mutable_inside(g) is None, 'the function received a mutable container', at=mutable_inside(g))
        unchanged(ctx, before[0])
        unchanged(ctx, before[1])
        if r[0] == 'exc':
            ctx.check_that(isinstance(r[1], Pass), 'exception of the function not passed through', got=r)
            continue
        d = describe_frozen(got['ret'], True)
        match(ctx, r[1], d)
        ctx.check_that(mutable_inside(r[1]) is None, 'the function returned a mutable container', at=mutable_inside(r[1]))
        ctx.counters['mutants'] += 1
        scribble(got['ret'])
        match(ctx, r[1], d)
