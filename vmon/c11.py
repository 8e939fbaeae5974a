"""C11: pickle, copy and deepcopy reproduce every value."""
import copy, os, pickle, subprocess, sys
import pyrsistent as P
from .base import *
from .decl import *
from . import fam, ops, decl as _decl
from .c15 import raw_for

CHECKED = (P.CheckedPVector, P.CheckedPSet, P.CheckedPMap)
PROTOS = range(pickle.HIGHEST_PROTOCOL + 1)


class Doubling:
    """Not idempotent factory; counts its calls."""
    calls = 0

    def __call__(self, x):
        Doubling.calls += 1
        return x * 2


class PosVec(P.CheckedPVector):
    __type__ = (int, float)
    __invariant__ = lambda x: (x >= 0, 'negative')


class StrSet(P.CheckedPSet):
    __type__ = str


class IntMap(P.CheckedPMap):
    __key_type__ = (str, int)
    __value_type__ = (int, PosVec)
    __invariant__ = lambda k, v: (v != 13, 'unlucky')


class Inner(P.PClass):
    n = P.field(type=int, factory=Doubling(), invariant=lambda x: (x < 1000, 'big'))
    s = P.field(type=(str, type(None)), initial=None)
    extra = P.field()


class Outer(P.PRecord):
    n = P.field(type=int, factory=Doubling(), invariant=lambda x: (x < 1000, 'big'))
    inner = P.field(type=Inner)
    vec = P.pvector_field(int)
    sset = P.pset_field((str, int), optional=True)
    mp = P.pmap_field(str, int, optional=True)
    poss = P.pvector_field(PosVec)
    any = P.field()
    __invariant__ = lambda r: (r.get('n') != 66, 'no 66')


class Sub(Outer):
    more = P.field(mandatory=True)


import enum


class Shade(enum.Enum):      # of its own: generated field types are cached per item type (see the known finding of C15)
    RED, GREEN, BLUE = 1, 2, 3


class Ser(P.PClass):
    """Serializes to something else than it pickles to."""
    x = P.field(serializer=lambda f, v: ('serialized', f, v))
    v = P.field(initial=None)


class SerRec(P.PRecord):
    x = P.field(serializer=lambda f, v: ('serialized', f, v))
    xs = P.pvector_field(Ser)


class Cls(P.PClass):
    ser = P.pvector_field(Ser)
    serm = P.pmap_field(str, (Ser, SerRec))
    inner = P.field(type=(Inner, type(None)))
    vec = P.pvector_field((int, str))
    sset = P.pset_field(int)
    mp = P.pmap_field(int, (str, int))
    iv = P.pvector_field(Shade, item_invariant=lambda c: (c is not Shade.BLUE, 'blue'))
    __invariant__ = lambda c: (getattr(c, 'inner', None) is not None or len(c.vec) < 50, 'x')


class CSub(Cls):
    y = P.field(initial=7)


def leaf(rng):
    return rng.choice([0, 1, 2, -5, 'a', 'bc', '', None, 1.5, True, (), (1, 'x'), b'q', frozenset([1, 2]), A(3), B(4), K('k%d' % rng.randrange(4), 5), Color.RED, 10**20])


def gen(rng, depth=2, hashable_only=False, top=True):
    """Any persistent value (nested)."""
    n = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < 0.9 or depth < 2 else rng.choice([31, 32, 33, 64, 65, 100])
    sub = lambda h=hashable_only: gen(rng, depth - 1, h, False) if depth > 0 and rng.random() < 0.35 else leaf(rng) if h or rng.random() < 0.9 else [leaf(rng)]
    k = rng.randrange(12)
    while k == 3 and not top:        # comparing a bag with anything else raises TypeError by design
        k = rng.randrange(12)
    if k == 0:
        v = P.pvector([sub() for _ in range(n)])
        if rng.random() < 0.3:
            e = v.evolver()
            for _ in range(3):
                e.append(sub())
            v = e.persistent()
            if n > 2:
                v = v.delete(1)
        return v
    if k == 1:
        m = P.pmap({sub(True): sub() for _ in range(n)}, pre_size=rng.choice([0, 0, 1, 5, 40]))
        for _ in range(rng.choice([0, 3])):
            k = sub(True)
            m = m.set(k, sub())
            if rng.random() < 0.5:
                m = m.remove(k)          # (nothing here may depend on hash order: another process repeats it)
        return m
    if k == 2:
        s = P.pset([sub(True) for _ in range(n)])
        return s.add(sub(True)) if rng.random() < 0.5 else s
    if k == 3:
        return P.pbag([leaf(rng) for _ in range(n)] * rng.choice([1, 2]))
    if k == 4:
        return P.plist([sub() for _ in range(n)])
    if k == 5:
        d = P.pdeque([sub() for _ in range(n)], maxlen=rng.choice([None, None, n, n + 3, 2, 0, 1]))
        return d.appendleft(sub()).append(sub()).popleft() if rng.random() < 0.5 else d
    if k == 6:
        return PosVec([rng.randrange(50) for _ in range(n)])
    if k == 7:
        return StrSet(['s%d' % rng.randrange(30) for _ in range(n)])
    if k == 8:
        return IntMap({rng.choice(['a', 'b', 1, 2, 'c%d' % i]): rng.choice([1, 2, PosVec([1, 2])]) for i in range(n)})
    inner = lambda: Inner(n=rng.randrange(100)) if rng.random() < 0.5 else Inner(n=rng.randrange(100), s='t', extra=sub(True))
    if k in (9, 10):
        kw = dict(n=rng.randrange(30), vec=[1, 2, 3][:n], any=sub(True))
        if rng.random() < 0.5:
            kw['inner'] = inner()
        if rng.random() < 0.5:
            kw['sset'] = rng.choice([None, [1, 'a'], []])
        if rng.random() < 0.5:
            kw['mp'] = rng.choice([None, {'a': 1}])
        if rng.random() < 0.5:
            kw['poss'] = [PosVec([1]), [2, 3]]
        if rng.random() < 0.2:
            del kw['any']
        r = Outer(**kw) if k == 9 else Sub(more=sub(True), **kw)
        return r.remove('n') if rng.random() < 0.2 else r
    kw = dict(vec=[1, 'a'], sset=[3, 4], mp={1: 'x'}, iv=rng.choice([[], [Shade.RED, Shade.GREEN]]))
    ser = lambda: Ser(x=rng.randrange(5)) if rng.random() < 0.5 else Ser(x='t', v=rng.choice([None, 1, Shade.RED]))
    kw.update(ser=[ser() for _ in range(rng.randrange(3))], serm={'a': ser(), 'b': SerRec(x=rng.randrange(3), xs=[ser()])})
    for x in list(kw):
        if rng.random() < 0.4:
            del kw[x]
    if rng.random() < 0.6:
        kw['inner'] = rng.choice([None, inner()])
    c = rng.choice([Cls, CSub])
    # as keys not both: they may be equal with different hashes (known finding of C10)
    return (Cls if hashable_only else c)(**kw)


KNOWN_FIELDS = {'Inner': ['n', 's', 'extra'], 'Ser': ['x', 'v'], 'Cls': ['inner', 'vec', 'sset', 'mp', 'iv', 'ser', 'serm'], 'CSub': ['inner', 'vec', 'sset', 'mp', 'iv', 'ser', 'serm', 'y']}


def fields_of(v):
    d = REG.get(type(v))
    if d is not None:
        return list(d.fields)
    return KNOWN_FIELDS[type(v).__name__]


def teq(a, b, elem, top=True):
    """Same types and contents at every level; leaves compared by elem."""
    if type(a) is not type(b):
        return False
    if isinstance(a, P.PVector) or isinstance(a, (P.PList, type(P.plist()))):
        return len(a) == len(b) and all(teq(x, y, elem, False) for x, y in zip(a, b))
    if isinstance(a, P.PDeque):
        return a.maxlen == b.maxlen and len(a) == len(b) and all(teq(x, y, elem, False) for x, y in zip(a, b))
    if isinstance(a, P.PMap):
        if len(a) != len(b):
            return False
        bi = {k: k for k in b}
        return all(k in bi and teq(k, bi[k], elem, False) and teq(v, b[k], elem, False) for k, v in a.iteritems())
    if isinstance(a, P.PSet):
        bi = {k: k for k in b}
        return len(a) == len(b) == len(bi) and all(k in bi and teq(k, bi[k], elem, False) for k in a)
    if isinstance(a, P.PBag):
        return len(a) == len(b) and all(a.count(k) == b.count(k) for k in a)
    if isinstance(a, P.PClass):
        return all(hasattr(a, n) == hasattr(b, n) and (not hasattr(a, n) or teq(getattr(a, n), getattr(b, n), elem, False)) for n in fields_of(a))
    return elem(a, b)


def by_value(a, b):
    if type(a) in (list, tuple) and len(a) == len(b):
        return all(teq(x, y, by_value) for x, y in zip(a, b))
    return a == b and type(a) is type(b)


def by_identity(a, b):
    return a is b


PERSISTENT = (P.PVector, P.PMap, P.PSet, P.PBag, P.PDeque, P.PClass, type(P.plist()), type(P.l(1)))


def copy_equal(a, b):
    """copy.copy keeps the very element objects (one level)."""
    if isinstance(a, (P.PVector, P.PDeque, type(P.l(1)), type(P.plist()))):
        return all(x is y for x, y in zip(a, b))
    if isinstance(a, P.PMap):
        return all(b[k] is v for k, v in a.iteritems())
    if isinstance(a, P.PClass):
        return all(getattr(a, n, None) is getattr(b, n, None) for n in fields_of(a))
    if isinstance(a, P.PSet):
        ids = {id(x) for x in b}
        return all(id(x) in ids for x in a)
    return True


def restored(ctx, rng, x, y, how):
    ctx.counters['restored'] += 1
    ctx.check_that(type(y) is type(x), how + ': type changed', got=type(y), want=type(x))
    ctx.check_that(y == x and x == y and not (x != y), how + ': not equal to the original', original=x, got=y)
    ctx.check_that(teq(x, y, by_value), how + ': contents or nested types differ', original=x, got=y)
    hx, hy = attempt(hash, x), attempt(hash, y)
    ctx.check_that(hx[0] == hy[0] and (hx[0] == 'exc' or hx[1] == hy[1]), how + ': hash differs', original=x, got=(hx, hy))
    if isinstance(x, (P.PVector, P.PDeque)) or type(x).__name__ in ('PList', '_EmptyPList'):
        plain = all(type(e) in (int, str, bool, float, bytes, type(None)) for e in x)   # (orders of nested sets may differ)
        ctx.check_that((not plain or repr(x) == repr(y)) and len(x) == len(y), how + ': repr differs', got=repr(y), want=repr(x))
    if isinstance(x, P.PDeque):
        ctx.check_that(x.maxlen == y.maxlen, how + ': maxlen lost', got=y.maxlen, want=x.maxlen)


def ways(rng):
    p = rng.choice(PROTOS)
    return [('copy', copy.copy), ('deepcopy', copy.deepcopy), ('pickle%d' % p, lambda v: pickle.loads(pickle.dumps(v, p)))]


def identity_pattern(l):
    seen = {}
    return [seen.setdefault(id(x), i) for i, x in enumerate(l)]


def scribbled(ctx, x, y, how):
    """Mutable elements of a deep copy are its own."""
    def lists(v, out):
        if isinstance(v, list):
            out.append(v)
        elif isinstance(v, (P.PVector, P.PDeque, tuple)) or type(v).__name__ in ('PList',):
            for e in v:
                lists(e, out)
        elif isinstance(v, P.PMap):
            for e in v.itervalues():
                lists(e, out)
        elif isinstance(v, P.PClass):
            for n in fields_of(v):
                lists(getattr(v, n, None), out)
        return out
    a, b = lists(x, []), lists(y, [])
    ctx.check_that(not ({id(l) for l in a} & {id(l) for l in b}), how + ': a mutable element is shared with the original', original=x)
    for l in b:
        l.append('SCRIBBLE')
    ctx.check_that(not any('SCRIBBLE' in l for l in a), how + ': the original changed with its deep copy')
    for l in b:
        l.pop()
    ctx.counters['mutable_elements'] += len(a)


def followup(ctx, rng, x, y, how):
    """The same further operations give equal results."""
    for F in fam.FAMS.values():
        kind = {'vec': P.PVector, 'map': P.PMap, 'set': P.PSet, 'bag': P.PBag, 'deque': P.PDeque}.get(F.name, type(P.l(1)))
        if isinstance(x, kind) and not isinstance(x, P.PRecord) and not isinstance(x, CHECKED):
            break
    else:
        return
    m = list(x) if F.name in ('vec', 'plist') else ops.MD(list(x), x.maxlen) if F.name == 'deque' else dict(x.items()) if F.name == 'map' else {k: k for k in x} if F.name == 'set' else {k: x.count(k) for k in x}
    uni = list(m)[:20] + [leaf(rng) for _ in range(3)] if F.keyed else None
    for _ in range(3):
        op = F.gen(rng, ctx, P, m, uni, [(x, m)])
        a, b = attempt(op.f, x), attempt(op.f, y)
        ctx.counters['followups'] += 1
        if a[0] == 'exc' or b[0] == 'exc':
            ctx.check_that(a[0] == b[0] and exc_kind(a[1]) == exc_kind(b[1]), how + ': further operation behaves differently', op=(op.name, op.desc), original=a, restored=b)
        elif op.kind == 'new':
            ctx.check_that(a[1] == b[1] and type(a[1]) is type(b[1]), how + ': further operation gives a different result', op=(op.name, op.desc), original=a[1], restored=b[1])


def enforce(ctx, rng, y, how):
    """Checks still apply to the restored value."""
    bad = None
    if isinstance(y, PosVec):
        bad = rng.choice([lambda: y.append(-1), lambda: y.append('x'), lambda: y.extend([1, -2])])
    elif isinstance(y, StrSet):
        bad = lambda: y.add(3)
    elif isinstance(y, IntMap):
        bad = rng.choice([lambda: y.set('q', 13), lambda: y.set(None, 1), lambda: y.set('q', 'x')])
    elif isinstance(y, Outer):
        bad = rng.choice([lambda: y.set(n=700), lambda: y.set(n='x' * 3), lambda: y.set(vec=['x']), lambda: y.set(nope=1), lambda: y.remove('vec'), lambda: y.set(n=33), lambda: y.set(poss=[[-1]]), lambda: y.vec.append('x')])
    elif isinstance(y, Inner):
        bad = rng.choice([lambda: y.set(n=700), lambda: y.set(s=3), lambda: setattr(y, 'n', 3), lambda: delattr(y, 'n'), lambda: setattr(y, 'zz', 3)])
    elif isinstance(y, Cls):
        bad = rng.choice([lambda: y.set(vec=[None]), lambda: y.vec.append(1.5), lambda: setattr(y, 'vec', 3), lambda: y.set(mp={'x': 1}), lambda: y.set(nope=3), lambda: y.set(iv=[Shade.BLUE]), lambda: y.iv.append(Shade.BLUE)])
    if bad:
        ctx.counters['enforced'] += 1
        r = attempt(bad)
        ctx.check_that(r[0] == 'exc', how + ': the restored value accepts an invalid update', value=y, got=r)


def all_ways(ctx, rng, x):
    for how, f in ways(rng):
        if rng.random() < 0.3:
            attempt(hash, x)
        Doubling.calls = 0
        y = f(x)
        ctx.check_that(Doubling.calls == 0, how + ': factories applied again', value=x, got=y)
        ctx.note(how, type(x).__name__, brief(x, 50))
        ctx.seen('types', type(x).__name__)
        restored(ctx, rng, x, y, how)
        if how == 'copy':
            ctx.check_that(copy_equal(x, y), 'copy.copy does not keep the element objects', value=x)
        else:
            scribbled(ctx, x, y, how)
            if isinstance(x, (P.PVector, P.PDeque)) and not isinstance(x, CHECKED):
                a, b = list(x), list(y)
                mut = [i for i, e in enumerate(a) if type(e) in (list, A, B)]
                ctx.check_that(identity_pattern([a[i] for i in mut]) == identity_pattern([b[i] for i in mut]), how + ': identities among the elements not reproduced')
        followup(ctx, rng, x, y, how)
        enforce(ctx, rng, y, how)
        if rng.random() < 0.3:
            restored(ctx, rng, x, copy.copy(pickle.loads(pickle.dumps(y, 2))), how + '+copy')


def declared(ctx, rng):
    pool = []
    for _ in range(rng.choice([0, 1, 2])):
        try:
            pool.append(a_coll(rng, pool=pool) if rng.random() < 0.5 else a_rec(rng, pool=pool))
        except Unsat:
            pass
    try:
        d = a_coll(rng, pool=pool) if rng.random() < 0.4 else a_rec(rng, pool=pool)
        xs = [d.value(rng) for _ in range(3)]
    except Unsat:
        return
    for x in xs:
        for how, f in ways(rng):
            logs = []
            if isinstance(d, Rec):
                for fl in d.fields.values():
                    fl.log.clear()
            y = f(x)
            ctx.note(how, d.kind, d.shape, brief(x, 50))
            if isinstance(d, Rec):
                for fl in d.fields.values():
                    ctx.check_that(all(fl.initial and v is fl.initial[0] for v in fl.log), how + ': factory applied again', field=fl.name, calls=fl.log)
            restored(ctx, rng, x, y, how)
            w = d.audit(y)
            ctx.check_that(w is None, how + ': restored instance invalid: %s' % w)
            if isinstance(d, Rec):
                n = rng.choice(list(d.fields))
                try:
                    raw = raw_for(ctx, rng, d, d.fields[n])
                except Unsat:
                    continue
                a, b = attempt(lambda: x.set(n, raw)), attempt(lambda: y.set(n, raw))
            elif d.kind == 'map':
                kv = rng.choice([d.broken(rng), None])
                kv = kv[0] if kv else (d.typed(rng, True), (d.bad(rng) or (1,))[0])
                a, b = attempt(lambda: x.set(*kv)), attempt(lambda: y.set(*kv))
            else:
                e = rng.choice([d.broken(rng), d.bad(rng)])
                e = e[0] if e else d.typed(rng)
                f2 = (lambda v: v.append(e)) if d.kind == 'vec' else (lambda v: v.add(e))
                a, b = attempt(f2, x), attempt(f2, y)
            ctx.counters['followups'] += 1
            ctx.check_that(a[0] == b[0] and (type(a[1]) is type(b[1])) and (a[0] == 'exc' or a[1] == b[1]), how + ': further operation behaves differently', original=a, restored=b)


def big(ctx):
    sizes = [1023, 1024, 1056, 1057, 1088, 2000, 32800, 33000]
    for (n, kind), rng in ctx.items('big', [(n, k) for n in sizes for k in ('vec', 'map', 'set', 'plist', 'deque', 'bag', 'cvec')]):
        if n > 5000 and kind not in ('vec', 'map'):
            continue
        x = {'vec': lambda: P.pvector(range(n)), 'map': lambda: P.pmap({i: str(i) for i in range(n)}), 'set': lambda: P.pset(range(n)), 'plist': lambda: P.plist(range(n)),
             'deque': lambda: P.pdeque(range(n), maxlen=n), 'bag': lambda: P.pbag(list(range(n)) * 2), 'cvec': lambda: PosVec(range(n))}[kind]()
        for how, f in ways(rng):
            y = f(x)
            ctx.note(how, kind, n)
            ctx.check_that(type(y) is type(x) and len(y) == len(x) and y == x, 'large value not reproduced', kind=kind, size=n, how=how)
            if kind in ('vec', 'plist', 'deque', 'cvec'):
                ctx.check_that(list(y) == list(x), 'large value not reproduced in order', kind=kind, size=n)


def child_values(seed, n):
    rng = random.Random('child|%s' % seed)
    return [gen(rng, 2) for _ in range(n)]


def other_process(ctx):
    """Unpickle in a fresh interpreter (different hash seed) and compare with independently built values."""
    for i, rng in ctx.cases('process', 1, scale=False):
        n = 150
        seed = '%s.%s' % (ctx.seed, ctx.worker)
        vals = child_values(seed, n)
        for v in vals[::2]:
            attempt(hash, v)
        path = os.path.join(ctx.spec['dir'], 'values.pickle')
        with open(path, 'wb') as f:
            pickle.dump([pickle.dumps(v, rng.choice(PROTOS)) for v in vals], f)
        env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10**6)))
        ctx.beat('child')
        r = subprocess.run([sys.executable, '-c', 'from vmon import c11; import sys; c11.child(*sys.argv[1:])', path, seed, str(n)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ctx.note('other process', n)
        ctx.check_that(r.returncode == 0 and 'CHILD OK %d' % n in r.stdout, 'values unpickled in another process differ', output=r.stdout[-1500:])
        ctx.counters['other_process'] += n


def child(path, seed, n):
    with open(path, 'rb') as f:
        blobs = pickle.load(f)
    vals = child_values(seed, int(n))
    ok = 0
    for b, v in zip(blobs, vals):
        y = pickle.loads(b)
        hv, hy = attempt(hash, v), attempt(hash, y)
        assert type(y) is type(v) and y == v and v == y and teq(v, y, by_value), (v, y)
        assert hv[0] == hy[0] and (hv[0] == 'exc' or hv[1] == hy[1]), ('hash', v, y)
        if hv[0] == 'ok':
            assert {v: 1}.get(y) == 1, (v, y)
        ok += 1
    print('CHILD OK %d' % ok)


class Ini(P.PRecord):
    a = P.field(initial=1)
    b = P.field()


def probe_known(ctx):
    x = Ini(b=2).remove('a')
    if attempt(lambda: 'a' in copy.copy(x)) == ('ok', True) and 'a' not in x:
        ctx.finding('precord-initial-restored', 'a PRecord whose field with an initial value was removed gets it back when pickled or copied')


def run(ctx):
    if ctx.shard == 0 and ctx.only is None:
        probe_known(ctx)
    other_process(ctx)
    big(ctx)
    for i, rng in ctx.cases('values', 900):
        x = gen(rng, rng.choice([0, 1, 2, 3]))
        all_ways(ctx, rng, x)
    for i, rng in ctx.cases('declared', 120):
        unless_unsat(ctx, declared, rng)
