"""Random declarations of checked collections, records and classes, with an independent description of what they allow."""
import decimal, enum, sys
import pyrsistent as P
from .base import *


class Color(enum.Enum):
    RED = 1
    GREEN = 2
    BLUE = 5


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


class A:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, A) and type(o) is type(self) and o.n == self.n

    def __hash__(self):
        return hash(self.n) & 7

    def __repr__(self):
        return '%s(%d)' % (type(self).__name__, self.n)


class B(A):
    pass


NoneT = type(None)
# type -> (surface names, value generator)
LEAVES = {
    int: (['builtins.int'], lambda r: r.choice([0, 1, 2, 3, 5, 8, -1, -7, 40, True, 10**12, r.randrange(100), Num.TWO])),
    str: (['builtins.str'], lambda r: r.choice(['', 'a', 'bc', 'def', 'x' * 7, 'k%d' % r.randrange(50)])),
    float: (['builtins.float'], lambda r: r.choice([0.0, 1.5, -2.25, 100.0])),
    bytes: ([], lambda r: r.choice([b'', b'a', b'xyz'])),
    NoneT: ([], lambda r: None),
    tuple: ([], lambda r: r.choice([(), (1,), (1, 2), ('a', 'b', 'c')])),
    Color: (['vmon.decl.Color'], lambda r: r.choice(list(Color))),
    Num: ([], lambda r: r.choice(list(Num))),
    A: (['vmon.decl.A'], lambda r: r.choice([A, A, B])(r.randrange(9))),
    B: (['vmon.decl.B'], lambda r: B(r.randrange(9))),
    decimal.Decimal: (['decimal.Decimal'], lambda r: decimal.Decimal(r.randrange(30))),
    frozenset: ([], lambda r: frozenset([r.randrange(3)])),
}


def digest(x):
    """A small number depending on the value only."""
    if isinstance(x, enum.Enum):
        return x.value
    if isinstance(x, (int, float, decimal.Decimal)):
        return int(x)
    if isinstance(x, A):
        return x.n + (3 if type(x) is B else 0)
    if x is None:
        return 11
    if isinstance(x, P.PClass):
        return 5
    if hasattr(x, '__len__'):
        return len(x) * 3 + 1
    return 2


class Inv:
    """A declared invariant: callable for the library, and its verdict known independently."""
    n = 0

    def __init__(self, rng, arity=1):
        Inv.n += 1
        self.id = Inv.n
        self.parts = [(rng.randrange(4, 9), rng.randrange(0, 4), 'code%d.%d' % (self.id, i)) for i in range(rng.choice([1, 1, 1, 2, 3]))]
        self.multi = len(self.parts) > 1 or rng.random() < 0.15
        self.lazy = rng.random() < 0.2
        self.shape = rng.choice([list, tuple, lambda g: g]) if self.multi else None
        self.arity = arity
        self.calls = 0

    def _ok(self, part, args):
        return sum(digest(a) * (i + 1) for i, a in enumerate(args)) % part[0] != part[1]

    def failing(self, *args):
        return {p[2] for p in self.parts if not self._ok(p, args)}

    def function(self):
        code = (lambda c: (lambda: c)) if self.lazy else (lambda c: c)
        inv = self

        if self.multi:
            # code of each part must not be callable in the merged form: the merged data is a tuple of codes
            def many(*args):
                inv.calls += 1
                return tuple((inv._ok(p, args), p[2]) for p in inv.parts) if inv.shape is tuple else [(inv._ok(p, args), p[2]) for p in inv.parts]
            f = many
        else:
            p = self.parts[0]

            def one(*args):
                inv.calls += 1
                return inv._ok(p, args), code(p[2])
            f = one
        return (lambda a: f(a)) if self.arity == 1 else (lambda a, b: f(a, b))


def codes_of(exc):
    out = set()

    def walk(x):
        if isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        else:
            out.add(x)
    walk(exc.invariant_errors)
    return out


class Dom:
    """Allowed types of an element or field: spec is what the declaration says, py the tuple of types it means (None: any)."""
    def __init__(self, spec, py, nested, desc):
        self.spec, self.py, self.nested, self.desc = spec, py, nested, desc

    def type_ok(self, x):
        return self.py is None or isinstance(x, self.py)

    def hashable(self):
        return all(d.hashable for d in self.nested)

    def any_good(self, rng):
        """A value of an allowed type (nested values are valid instances)."""
        t = rng.choice(self.py or tuple(LEAVES))
        for d in self.nested:
            if d.cls is t:
                return d.value(rng)
        return LEAVES[t][1](rng) if t in LEAVES else FRESH[t](rng)

    def bad(self, rng):
        if self.py is None:
            return None
        for _ in range(40):
            x = LEAVES[rng.choice(list(LEAVES))][1](rng)
            if not isinstance(x, self.py):
                return (x,)
        return None


FRESH = {}


def fresh_type(tag):
    """A new class (so that generated field types are not shared) with a value generator."""
    t = type('U%d' % tag, (A,), {})
    t.__module__ = __name__
    globals()[t.__name__] = t
    FRESH[t] = lambda r: t(r.randrange(9))
    return t


def leaf_dom(rng, multi=True, anyok=True, strings=True):
    r = rng.random()
    if r < 0.12 and anyok:
        return Dom(None, None, [], 'any')
    k = 1 if r < 0.55 or not multi else rng.choice([2, 2, 3])
    ts = rng.sample(list(LEAVES), k)
    return make_dom(rng, ts, [], strings)


def surface(rng, t, strings):
    names = LEAVES.get(t, ([],))[0]
    return rng.choice(names) if names and strings and rng.random() < 0.25 else t


def make_dom(rng, ts, nested, strings=True):
    specs = [surface(rng, t, strings) for t in ts]
    if len(specs) == 1 and rng.random() < 0.7:
        spec = specs[0]
    elif NoneT in ts and len(ts) > 1 and rng.random() < 0.7:
        spec = P.optional(*[s for s, t in zip(specs, ts) if t is not NoneT])
    else:
        spec = rng.choice([tuple, tuple, list])(specs)
        if rng.random() < 0.2 and len(specs) > 1:
            spec = (tuple(specs[:1]), tuple(specs[1:]))
    return Dom(spec, tuple(ts), nested, '/'.join(t.__name__ for t in ts))


def a_dom(rng, pool, hashable=False, single_nested=False, **kw):
    """A leaf domain or one mentioning a nested declared class."""
    cand = [d for d in pool if d.hashable or not hashable]
    if cand and rng.random() < 0.45:
        d = rng.choice(cand)
        ts = [d.cls]
        if not single_nested and rng.random() < 0.3:
            ts += rng.sample([int, str, NoneT, Color], rng.choice([1, 2]))
            rng.shuffle(ts)
        return make_dom(rng, ts, [d])
    return leaf_dom(rng, **kw)


class Unsat(Exception):
    pass


def sample(rng, gen, ok, tries=60):
    for _ in range(tries):
        x = gen()
        if ok(x):
            return x
    raise Unsat()


SEQ = [0]


def cls_name(prefix):
    SEQ[0] += 1
    return '%s%d' % (prefix, SEQ[0])


class Decl:
    hashable = False
    depth = 1


class Coll(Decl):
    """Declared checked vector, set or map."""
    BASE = {'vec': P.CheckedPVector, 'set': P.CheckedPSet, 'map': P.CheckedPMap}

    def __init__(self, rng, kind, pool, parents=(), serializer=None, register=None, types=True, nested=True, hash_nested=True):
        self.kind, self.parents = kind, list(parents)
        self.own_key = self.own_val = None
        self.own_inv = []
        self.serializer = serializer
        p = pool if nested else []
        ns = {'__module__': register or __name__}
        if rng.random() < (0.8 if not parents else 0.3) and types:
            self.own_val = a_dom(rng, p if hash_nested or kind != 'set' else [], hashable=(kind == 'set'), anyok=False)
            ns['__value_type__' if kind == 'map' else '__type__'] = self.own_val.spec
        if kind == 'map' and rng.random() < (0.8 if not parents else 0.3) and types:
            self.own_key = a_dom(rng, p if hash_nested else [], hashable=True, anyok=False)
            ns['__key_type__'] = self.own_key.spec
        if rng.random() < 0.5:
            inv = Inv(rng, 2 if kind == 'map' else 1)
            self.own_inv.append(inv)
            ns['__invariant__'] = inv.function()
        if serializer:
            ns['__serializer__'] = serializer
        bases = [d.cls for d in self.parents]
        self.mixins = []
        if rng.random() < 0.15:
            inv = Inv(rng, 2 if kind == 'map' else 1)
            mix = type('Mixin', (object,), {'__slots__': (), '__invariant__': inv.function()})
            bases.insert(rng.choice([0, len(bases)]), mix)
            self.own_inv.append(inv)
        if not self.parents:
            bases.append(self.BASE[kind])
        self.cls = type(self.BASE[kind])(cls_name({'vec': 'V', 'set': 'S', 'map': 'M'}[kind]), tuple(bases), ns)
        self.doms = self._union('own_val')
        self.kdoms = self._union('own_key')
        self.invs = self._invs()
        self.hashable = self._hashable()
        self.depth = 1 + max([d.depth for dm in self.doms + self.kdoms for d in dm.nested] or [0])

    def ancestors(self):
        seen, out = set(), []

        def walk(d):
            if id(d) in seen:
                return
            seen.add(id(d))
            out.append(d)
            for p in d.parents:
                walk(p)
        walk(self)
        return out

    def _union(self, attr):
        return [getattr(d, attr) for d in self.ancestors() if getattr(d, attr) is not None]

    def _invs(self):
        return [i for d in self.ancestors() for i in d.own_inv]

    def _hashable(self):
        return all(d.hashable for dm in self.doms + self.kdoms for d in dm.nested)

    def type_ok(self, x, key=False):
        doms = self.kdoms if key else self.doms
        return not doms or any(d.type_ok(x) for d in doms)

    def failing(self, *elem):
        return set().union(*[i.failing(*elem) for i in self.invs]) if self.invs else set()

    def typed(self, rng, key=False):
        doms = self.kdoms if key else self.doms
        if not doms:
            return LEAVES[rng.choice(list(LEAVES))][1](rng)
        return rng.choice(doms).any_good(rng)

    def good(self, rng):
        """-> a valid element, or (key, value)"""
        if self.kind == 'map':
            return sample(rng, lambda: (self.typed(rng, True), self.typed(rng)), lambda kv: not self.failing(*kv))
        return sample(rng, lambda: self.typed(rng), lambda x: not self.failing(x))

    def broken(self, rng):
        """-> an element of the right type violating an invariant, or None"""
        if not self.invs:
            return None
        try:
            if self.kind == 'map':
                return (sample(rng, lambda: (self.typed(rng, True), self.typed(rng)), lambda kv: self.failing(*kv)),)
            return (sample(rng, lambda: self.typed(rng), lambda x: self.failing(x)),)
        except Unsat:
            return None

    def bad(self, rng, key=False):
        """-> a value of a type that is not allowed, or None"""
        doms = self.kdoms if key else self.doms
        if not doms:
            return None
        for _ in range(60):
            x = LEAVES[rng.choice(list(LEAVES))][1](rng)
            if not any(d.type_ok(x) for d in doms):
                return (x,)
        return None

    def content(self, rng, n=None):
        n = rng.choice([0, 1, 2, 3, 5]) if n is None else n
        if self.kind == 'map':
            return dict(self.good(rng) for _ in range(n))
        l = [self.good(rng) for _ in range(n)]
        return list(dict.fromkeys(l)) if self.kind == 'set' else l

    def value(self, rng, n=None):
        return self.cls(self.content(rng, n))

    def audit(self, x, exact=True):
        """-> None or what is wrong with the instance (recursive)."""
        if exact and type(x) is not self.cls:
            return 'is a %s, not a %s' % (type(x).__name__, self.cls.__name__)
        if not isinstance(x, self.BASE[self.kind]):
            return 'is not a checked collection'
        elems = list(x.items()) if self.kind == 'map' else [(e,) for e in x]
        for e in elems:
            if self.kind == 'map' and not self.type_ok(e[0], True):
                return 'key %s has a type that is not allowed' % brief(e[0])
            if not self.type_ok(e[-1]):
                return '%s has a type that is not allowed' % brief(e[-1])
            f = self.failing(*e)
            if f:
                return '%s violates invariants %s' % (brief(e), sorted(f))
            for v in e:
                w = audit_any(v)
                if w:
                    return '%s: %s' % (brief(v), w)
        return None


REG = {}


def publish(d):
    """Make the class importable (pickle) and known to the auditor."""
    REG[d.cls] = d
    m = sys.modules[d.cls.__module__]
    setattr(m, d.cls.__name__, d.cls)


def audit_any(v):
    d = REG.get(type(v))
    return d.audit(v) if d is not None else None


def a_coll(rng, kind=None, pool=(), register=None, serializer=None, nested=True, hash_nested=True):
    """A satisfiable collection declaration, possibly inheriting from freshly declared ancestors."""
    for _ in range(30):
        k = kind or rng.choice(['vec', 'set', 'map'])
        shape = rng.choice(['root', 'root', 'chain', 'chain2', 'multi', 'diamond'])
        mk = lambda *ps, **kw: Coll(rng, k, list(pool), ps, register=register, nested=nested, hash_nested=hash_nested, **kw)
        try:
            if shape == 'root':
                d = mk(serializer=serializer)
            elif shape == 'chain':
                d = mk(mk(serializer=serializer))
            elif shape == 'chain2':
                d = mk(mk(mk(serializer=serializer)))
            elif shape == 'multi':
                d = mk(mk(), mk(serializer=serializer)) if serializer is None else mk(mk(serializer=serializer))
            else:
                r = mk(serializer=serializer)
                d = mk(mk(r), mk(r))
            d.shape = shape
            for _ in range(4):
                d.good(rng)
            for a in d.ancestors():
                publish(a)
            return d
        except (Unsat, ValueError):
            continue
    raise Unsat()


# ------------------------------------------------------------------------------------------------ records and classes
FIELD_NAMES = ['x', 'y', 'z', 'name', 'kids', 'data', 'a1', 'long_field_name', 'q', 'w', 'val', 'no_factory', 'type', '_priv']


class F:
    """Declared field."""
    def __init__(self, rng, name, pool, opts):
        self.name = name
        self.log = []                 # values the factory was called with
        self.generated = None
        self.fac = None
        self.ser = None
        self.invs = []
        self.initial = ()
        self.initial_callable = False
        kind = rng.random()
        inv = None
        if opts.get('inv', True) and rng.random() < 0.35:
            inv = Inv(rng)
            self.invs.append(inv)
        if kind < opts.get('generated', 0.25):
            self._generated(rng, opts, inv, pool if opts.get('gen_nested') else [])
            return
        self.dom = a_dom(rng, pool, single_nested=opts.get('single') or rng.random() < 0.7, strings=True)
        self.mandatory = rng.random() < 0.35
        kw = dict(mandatory=self.mandatory) if self.mandatory or rng.random() < 0.2 else {}
        if self.dom.py is not None:
            kw['type'] = self.dom.spec
        if inv:
            kw['invariant'] = inv.function()
        nested1 = self.dom.py is not None and len(self.dom.py) == 1 and self.dom.nested
        self.auto = self.dom.nested[0] if nested1 else None        # create() of the nested class is the factory
        if opts.get('factory', True) and rng.random() < 0.35 and not nested1:
            self.fac = Factory(self)
            kw['factory'] = self.fac
        strs = self.dom.py is not None and any(isinstance(s, str) for s in flat(self.dom.spec))
        if opts.get('initial', True) and rng.random() < 0.35 and not strs:
            v = self.dom.any_good(rng)
            if not callable(v):
                self.initial = (v,)
                self.initial_callable = rng.random() < 0.4
                kw['initial'] = (lambda: v) if self.initial_callable else v
        if opts.get('serializer') and rng.random() < 0.3:
            tag = 'ser%d' % rng.randrange(100)
            self.ser = lambda fmt, v: (tag, fmt, v)
            kw['serializer'] = self.ser
        self.field = P.field(**kw)

    def _generated(self, rng, opts, inv, pool):
        """pvector_field / pset_field / pmap_field"""
        self.auto = None
        self.mandatory = True
        k = rng.choice(['vec', 'set', 'map'])
        opt = rng.random() < 0.3
        self.optional = opt
        kw = {'optional': True} if opt else {}
        if inv:
            kw['invariant'] = inv.function()
        g = Gen()
        g.kind = k
        if k == 'map':
            ks, vs = leaf_dom(rng, anyok=False), a_dom(rng, pool, anyok=False)
            ks.spec, vs.spec = tuplify(ks.spec), tuplify(vs.spec)
            g.kdoms, g.doms, g.invs = [ks], [vs], []
            self.field = P.pmap_field(ks.spec, vs.spec, **kw)
            self.initial = ({},)
        else:
            dm = a_dom(rng, pool if k == 'vec' else [], anyok=False)
            dm.spec = tuplify(dm.spec)
            g.kdoms, g.doms, g.invs = [], [dm], []
            if rng.random() < 0.4:
                iv = Inv(rng)
                SEQ[0] += 1
                u = fresh_type(SEQ[0])
                dm = Dom((dm.spec, u) if not isinstance(dm.spec, tuple) else dm.spec + (u,), dm.py + (u,), dm.nested, dm.desc + '/U')
                g.doms = [dm]
                g.invs = [iv]
                kw['item_invariant'] = iv.function()
            ini = ()
            if rng.random() < 0.4:
                try:
                    ini = [sample(rng, lambda: g.doms[0].any_good(rng), lambda x: not g.failing(x)) for _ in range(rng.randrange(1, 4))]
                    kw['initial'] = ini
                except Unsat:
                    ini = ()
            elif opt and rng.random() < 0.3:
                ini = kw['initial'] = None
            self.initial = (ini,)
            self.field = (P.pvector_field if k == 'vec' else P.pset_field)(dm.spec, **kw)
        ts = [t for t in self.field.type if t is not NoneT]
        g.cls = ts[0]
        REG[g.cls] = g
        self.generated = g
        g.hashable = all(x.hashable for dm in g.doms + g.kdoms for x in dm.nested)
        g.depth = 1 + max([x.depth for dm in g.doms + g.kdoms for x in dm.nested] or [0])
        g.parents = []
        g.serializer = None
        self.dom = Dom(None, (g.cls, NoneT) if opt else (g.cls,), [g], 'generated ' + k)
        self.fac = None

    def convert(self, v, ignore_extra=False):
        """What the declared factory makes of v -> ('ok', value) | ('immediate', exc kind set) | ('invariant', codes, missing)"""
        if self.generated:
            return self.generated.create(v, getattr(self, 'optional', False))
        if self.fac:
            return 'ok', self.fac.model(v)
        if self.auto is not None and not isinstance(v, self.auto.cls):
            return 'immediate', Exception
        return 'ok', v


def flat(spec):
    if isinstance(spec, (tuple, list)):
        return [y for x in spec for y in flat(x)]
    return [spec]


def tuplify(spec):
    return tuple(flat(spec)) if isinstance(spec, (tuple, list)) else spec


class Factory:
    """A factory that is not idempotent: applying it twice shows."""
    def __init__(self, f):
        self.log = f.log

    def model(self, v):
        if isinstance(v, bool) or isinstance(v, enum.Enum):
            return v
        if isinstance(v, int):
            return v * 2 + 1
        if isinstance(v, str):
            return v + '!'
        if isinstance(v, float):
            return v + 1.0
        if isinstance(v, tuple):
            return v + ('f',)
        return v

    def __call__(self, v):
        self.log.append(v)
        return self.model(v)


class Gen(Coll):
    """Description of a generated field type."""
    def __init__(self):
        self.own_inv = []

    def create(self, v, optional):
        if v is None and optional:
            return 'ok', None
        if isinstance(v, self.cls):
            return 'ok', v
        if self.kind == 'map':
            if not isinstance(v, (dict, P.PMap)):
                return 'immediate', Exception
            bad = [k for k, x in v.items() if not self.type_ok(k, True) or not self.type_ok(x)]
            if bad:
                return 'immediate', P.CheckedKeyTypeError.__mro__[1]
            return 'ok', ('map', dict(v))
        if not hasattr(v, '__iter__'):
            return 'immediate', Exception
        l = list(v)
        if any(not self.type_ok(x) for x in l):
            return 'immediate', P.CheckedValueTypeError.__mro__[1]
        fails = set().union(*[self.failing(x) for x in l]) if l else set()
        if fails:
            return 'invariant', fails, set()
        return 'ok', (self.kind, l)


class Rec(Decl):
    """Declared PRecord ('rec') or PClass ('cls')."""
    def __init__(self, rng, kind, pool, parents=(), register=None, **opts):
        self.kind, self.parents = kind, list(parents)
        ns = {'__module__': register or __name__}
        self.fields = {}
        for p in self.parents:
            self.fields.update(p.fields)
        self.own = {}
        for name in rng.sample(FIELD_NAMES, rng.choice([1, 2, 2, 3, 4, 5])):
            if name in self.fields and rng.random() < 0.5:
                continue
            f = F(rng, name, pool, opts)
            self.own[name] = f
            ns[name] = f.field
        self.fields.update(self.own)
        self.own_inv = []
        if opts.get('ginv', True) and rng.random() < 0.4:
            inv = Inv(rng)
            self.own_inv.append(inv)
            fn = inv.function()
            decl_ = self
            ns['__invariant__'] = lambda subject: fn(decl_.summary(subject))
        bases = [p.cls for p in self.parents]
        if rng.random() < 0.15 and opts.get('ginv', True):
            inv = Inv(rng)
            self.own_inv.append(inv)
            fn2 = inv.function()
            decl2 = self
            bases.insert(0, type('Mixin', (object,), {'__slots__': (), '__invariant__': lambda subject: fn2(decl2.summary(subject))}))
        if kind == 'cls' and rng.random() < 0.2:
            bases.insert(0, type('Plain', (object,), {}))       # (no __slots__: instances get a __dict__)
        if not self.parents:
            bases.append(P.PRecord if kind == 'rec' else P.PClass)
        meta = type(P.PRecord if kind == 'rec' else P.PClass)
        self.cls = meta(cls_name('R' if kind == 'rec' else 'C'), tuple(bases), ns)
        self.ginvs = [(d, i) for d in self.ancestors() for i in d.own_inv]
        self.hashable = all(d.hashable for f in self.fields.values() for d in f.dom.nested)
        self.depth = 1 + max([d.depth for f in self.fields.values() for d in f.dom.nested] or [0])

    ancestors = Coll.ancestors

    def get(self, x, name, default=None):
        return x.get(name, default) if self.kind == 'rec' else getattr(x, name, default)

    def summary(self, x):
        """A number over the fields this declaration knows."""
        return sum(digest(self.get(x, n)) for n in sorted(self.fields))

    def summary_of(self, d):
        return sum(digest(d.get(n)) for n in sorted(self.fields))

    def present(self, x):
        if self.kind == 'rec':
            return dict(x.items())
        return {n: getattr(x, n) for n in self.fields if hasattr(x, n)}

    def audit(self, x, exact=True):
        if exact and type(x) is not self.cls:
            return 'is a %s, not a %s' % (type(x).__name__, self.cls.__name__)
        vals = self.present(x)
        for n, v in vals.items():
            f = self.fields.get(n)
            if f is None:
                return 'has the undeclared field %r' % (n,)
            if not f.dom.type_ok(v):
                return 'field %s = %s has a type that is not allowed' % (n, brief(v))
            bad = set().union(*[i.failing(v) for i in f.invs]) if f.invs else set()
            if bad:
                return 'field %s = %s violates %s' % (n, brief(v), sorted(bad))
            w = audit_any(v)
            if w:
                return 'field %s: %s' % (n, w)
        for n, f in self.fields.items():
            if f.mandatory and n not in vals:
                return 'mandatory field %s is missing' % n
        for d, i in self.ginvs:
            bad = i.failing(d.summary_of(vals))
            if bad:
                return 'violates global invariants %s' % sorted(bad)
        return None

    def field_value(self, rng, f):
        """A raw value acceptable for the field -> raw"""
        if f.generated:
            g = f.generated
            if getattr(f, 'optional', False) and rng.random() < 0.3:
                raw = None
            else:
                raw = g.content(rng, rng.choice([0, 1, 2, 3]))
            if rng.random() < 0.3 and raw is not None:
                raw = g.cls(raw)
            return raw
        return f.dom.any_good(rng)

    def outcome(self, f, raw):
        """Model of setting the field to raw -> ('ok', content) or ('immediate', exc) or ('invariant', codes, missing)"""
        r = f.convert(raw)
        if r[0] != 'ok':
            return r
        v = r[1]
        if f.generated:
            dg = raw if isinstance(v, tuple) else v
            if isinstance(v, tuple):
                dg = v[1] if v[0] != 'set' else dict.fromkeys(v[1])
            bad = set().union(*[i.failing(dg) for i in f.invs]) if f.invs else set()
            return ('invariant', bad, set()) if bad else r
        if not f.dom.type_ok(v):
            return 'immediate', P.PTypeError
        bad = set().union(*[i.failing(v) for i in f.invs]) if f.invs else set()
        return ('invariant', bad, set()) if bad else r

    def good_raw(self, rng, f):
        return sample(rng, lambda: self.field_value(rng, f), lambda v: self.outcome(f, v)[0] == 'ok', 40)

    def plausible(self, rng, full=None):
        """Raw keyword arguments that give a valid instance."""
        for _ in range(30):
            kw = {}
            for n, f in self.fields.items():
                need = f.mandatory and not f.initial
                if need or rng.random() < (0.7 if full is None else full):
                    kw[n] = self.good_raw(rng, f)
            e = self.expect(kw)
            if e[0] == 'ok':
                return kw
        raise Unsat()

    def expect(self, kw, carried=(), use_initial=True):
        """Model of building an instance from raw values kw (fields to run factories on) and carried-over values.

        -> ('ok', {field: expected content}) | ('raises', [acceptable verdicts])"""
        carried = dict(carried)
        imm, codes, missing, maybe_missing, vals = [], set(), set(), set(), {}
        unknown = [k for k in list(kw) + list(carried) if k not in self.fields]
        for n, f in self.fields.items():
            if n in kw:
                r = self.outcome(f, kw[n])
            elif n in carried:
                r = 'ok', carried[n]
            elif f.initial and use_initial and self.kind == 'rec':
                r = self.outcome(f, f.initial[0])
            elif f.initial and use_initial:
                v = f.initial[0]
                if f.generated:
                    r = self.outcome(f, v)
                elif not f.dom.type_ok(v):
                    r = 'immediate', P.PTypeError
                else:
                    bad = set().union(*[i.failing(v) for i in f.invs]) if f.invs else set()
                    r = ('invariant', bad, set()) if bad else ('ok', v)
            else:
                if f.mandatory:
                    missing.add('%s.%s' % (self.cls.__name__, n))
                continue
            if r[0] == 'ok':
                vals[n] = r[1]
            elif r[0] == 'immediate':
                imm.append(r[1])
            else:
                if self.kind == 'cls' and f.generated and f.convert(kw.get(n, f.initial[0] if f.initial else None))[0] == 'invariant':
                    imm.append(('inv', frozenset(r[1])))
                codes |= r[1]
                if f.mandatory:
                    maybe_missing.add('%s.%s' % (self.cls.__name__, n))
        if self.kind == 'rec' and unknown:
            imm.append(AttributeError)
        if imm:
            return 'raises', imm
        if codes or missing:
            return 'raises', [('inv', frozenset(codes), frozenset(missing), frozenset(maybe_missing))]
        if unknown:
            return 'raises', [AttributeError]
        return self.globals_of(vals)

    def globals_of(self, vals):
        s = {n: (plain_len(v)) for n, v in vals.items()}
        bad = set()
        for d, i in self.ginvs:
            bad |= i.failing(d.summary_of(s))
        if bad:
            return 'raises', [('inv', frozenset(bad), frozenset(), frozenset())]
        return 'ok', vals

    def value(self, rng):
        return self.cls(**self.plausible(rng))


def plain_len(v):
    """Something with the same digest as the stored value (generated collections are described by (kind, contents))."""
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ('vec', 'set', 'map') and isinstance(v[1], (list, dict)):
        return v[1] if v[0] != 'set' else dict.fromkeys(v[1])
    return v


def a_rec(rng, kind=None, pool=(), register=None, **opts):
    for _ in range(40):
        k = kind or rng.choice(['rec', 'cls'])
        shape = rng.choice(['root', 'root', 'chain', 'chain2'] + (['multi', 'diamond'] if k == 'rec' else []))
        mk = lambda *ps: Rec(rng, k, list(pool), ps, register=register, **opts)
        try:
            if shape == 'root':
                d = mk()
            elif shape == 'chain':
                d = mk(mk())
            elif shape == 'chain2':
                d = mk(mk(mk()))
            elif shape == 'multi':
                a, b = mk(), mk()
                if set(a.fields) & set(b.fields):
                    continue
                d = mk(a, b)
            else:
                r = mk()
                a, b = mk(r), mk(r)
                if set(a.own) & set(b.fields) or set(b.own) & set(a.fields):
                    continue
                d = mk(a, b)
            d.shape = shape
            for _ in range(3):
                d.value(rng)
            for x in d.ancestors():
                publish(x)
            return d
        except Unsat:
            continue
    raise Unsat()


def verdict_ok(e, verdicts, lenient=False):
    """Does the exception match one of the acceptable verdicts?"""
    for v in verdicts:
        if isinstance(v, tuple):
            if isinstance(e, P.InvariantException):
                if len(v) == 2:
                    if v[1] <= codes_of(e):
                        return True
                    continue
                miss = set(e.missing_fields)
                if codes_of(e) == v[1] and v[2] <= miss <= v[2] | v[3]:
                    return True
        elif isinstance(e, v):
            return True
    return False


def unless_unsat(ctx, f, rng):
    """Run one case; a declaration for which no value can be generated ends it."""
    try:
        f(ctx, rng)
    except Unsat:
        ctx.counters['unsatisfiable_declarations'] += 1
