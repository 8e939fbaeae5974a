"""C14: checked collections hold only valid elements, by whatever route an instance comes into being."""
import copy, pickle
from decimal import Decimal
from fractions import Fraction
import pyrsistent as P
from pyrsistent._pvector import python_pvector
from .base import *
from .decl import *
from . import fam

TYPE_ERR = (P.CheckedKeyTypeError, P.CheckedValueTypeError)


def verdict(d, elems):
    """What has to happen when these elements are put into a collection declared by d."""
    tb = []
    for e in elems:
        if d.kind == 'map':
            if not d.type_ok(e[0], True):
                tb.append((P.CheckedKeyTypeError, e[0]))
            elif not d.type_ok(e[1]):
                tb.append((P.CheckedValueTypeError, e[1]))
        elif not d.type_ok(e):
            tb.append((P.CheckedValueTypeError, e))
    if tb:
        return 'type', tb
    codes = set()
    for e in elems:
        codes |= d.failing(*(e if d.kind == 'map' else (e,)))
    return ('inv', codes) if codes else ('ok', None)


def pick(ctx, rng, d, p_bad=0.25):
    """An element: mostly valid, sometimes of a wrong type or violating an invariant."""
    r = rng.random()
    if r < p_bad:
        which = rng.random()
        if which < 0.5:
            b = d.broken(rng)
            if b:
                return b[0]
        if d.kind == 'map':
            k, v = d.good(rng)
            bk, bv = d.bad(rng, True), d.bad(rng)
            if bk and (rng.random() < 0.5 or not bv):
                return bk[0], v
            if bv:
                return k, bv[0]
            return k, v
        b = d.bad(rng)
        if b:
            return b[0]
    return d.good(rng)


class Twin:
    """Of no declared type, but equal to another object."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return self.x == o

    def __hash__(self):
        return hash(self.x)

    def __repr__(self):
        return 'Twin(%r)' % (self.x,)


def twin(rng, x):
    """Equal to x, mostly of another type."""
    if isinstance(x, (int, float)) and rng.random() < 0.6:
        for t in rng.sample([int, float, bool, Fraction, Decimal, complex], 6):
            r = attempt(t, x)
            if r[0] == 'ok' and r[1] == x and type(r[1]) is not type(x):
                return r[1]
    return Twin(x)


def near(rng, d, m, one):
    """Now and then an element equal to one that is in the collection already."""
    if not m or rng.random() > 0.12:
        return one
    if d.kind != 'map':
        t = twin(rng, rng.choice(list(m)))
        return one if isinstance(t, Twin) and d.type_ok(t) else t
    k = rng.choice(list(m))
    v = m[k]
    kt, vt = twin(rng, k), twin(rng, v)
    r = rng.random()
    if r < 0.5 and not (isinstance(vt, Twin) and d.type_ok(vt)):
        return k, vt
    if r < 0.8 and not (isinstance(kt, Twin) and d.type_ok(kt, True)):
        return kt, v
    return k, v


def check_error(ctx, d, e, v, what):
    ctx.counters['rejected.' + v[0]] += 1
    ctx.counters['failing_ops'] += 1
    if v[0] == 'type':
        ctx.check_that(isinstance(e, P.CheckedKeyTypeError.__mro__[1]) and any(isinstance(e, t) and e.actual_value is x for t, x in v[1]),
                       what + ': wrong exception for an element of a type that is not allowed', got=e, offending=v[1])
        ctx.check_that(e.actual_type is type(e.actual_value) and e.source_class is d.cls, what + ': type error describes something else', got=(e.source_class, e.actual_type, e.actual_value))
    else:
        ctx.check_that(isinstance(e, P.InvariantException) and codes_of(e) == v[1], what + ': wrong exception for violated invariants',
                       got=(type(e).__name__, str(e)), want=sorted(v[1]))


def content(d, x):
    return dict(x.items()) if d.kind == 'map' else list(x)


def same_content(d, x, m):
    """m: list (vec), dict element->element (set), dict (map)"""
    if d.kind == 'vec':
        return len(x) == len(m) and all(a is b for a, b in zip(x, m))
    if d.kind == 'set':
        return len(x) == len(m) and all(e in x for e in m)
    return len(x) == len(m) and all(k in x and x[k] is v for k, v in m.items())


def check_instance(ctx, d, x, m, what):
    ctx.counters['audits'] += 1
    ctx.check_that(type(x) is d.cls, what + ': result is not an instance of the class', got=type(x), want=d.cls)
    w = d.audit(x)
    ctx.check_that(w is None, what + ': an invalid instance exists: %s' % w, value=x)
    ctx.check_that(same_content(d, x, m), what + ': wrong content', got=x, want=m)


def source(rng, d, elems):
    """The elements in a form the constructors accept."""
    if d.kind == 'map':
        dct = dict(elems)
        return rng.choice([lambda: dct, lambda: dct, lambda: P.pmap(dct), lambda: AnyMap(dct), lambda: P.pmap(dct).evolver().persistent()])()
    elems = list(elems)
    if d.kind == 'vec':
        return rng.choice([lambda: elems, lambda: tuple(elems), lambda: (e for e in elems), lambda: P.pvector(elems), lambda: python_pvector(elems), lambda: P.plist(elems),
                           lambda: P.pdeque(elems), lambda: AnyVec(elems), lambda: iter(elems), lambda: GetItemSeq(elems), lambda: P.pvector(elems).evolver().persistent(),
                           lambda: python_pvector(elems).evolver().persistent()])()
    return rng.choice([lambda: elems, lambda: tuple(elems), lambda: (e for e in elems), lambda: set(elems), lambda: frozenset(elems), lambda: P.pset(elems), lambda: P.pmap({e: 1 for e in elems}),
                       lambda: {e: 1 for e in elems}, lambda: AnySet(elems), lambda: P.pmap({e: 1 for e in elems}).keys(), lambda: P.pvector(elems), lambda: python_pvector(elems)])()


class AnyVec(P.CheckedPVector):
    pass


class AnySet(P.CheckedPSet):
    pass


class AnyMap(P.CheckedPMap):
    pass


def norm(d, elems):
    """The elements that really arrive (a dict drops duplicates)."""
    return list(dict(elems).items()) if d.kind == 'map' else list(dict.fromkeys(elems)) if d.kind == 'set' else list(elems)


def as_model(d, elems):
    return list(elems) if d.kind == 'vec' else dict.fromkeys(elems) if d.kind == 'set' else dict(elems)


def bulk(ctx, rng, d, holders, elems):
    """Bring an instance into being from all elements at once -> (name, f)"""
    r = rng.random()
    if r < 0.4:
        return 'constructor', lambda: d.cls(source(rng, d, elems)), ()
    if r < 0.7:
        return 'create', lambda: d.cls.create(source(rng, d, elems)), ()
    if r < 0.8:
        def ev():
            e = d.cls().evolver()
            for x in elems:
                if d.kind == 'vec':
                    e.append(x)
                elif d.kind == 'set':
                    e.add(x)
                else:
                    e[x[0]] = x[1]
            return e.persistent()
        return 'evolver', ev, ()
    H = rng.choice(holders)
    src = lambda: source(rng, d, elems)
    if r < 0.9:
        return 'field', (lambda: H(f=src()).f), ('field',)
    return 'field.set', (lambda: H(f=d.cls()).set('f', src()).f if rng.random() < 0.5 else H(f=d.cls()).set(f=src()).f), ('field',)


def update(ctx, rng, d, x, m):
    """One update route on instance x with model m -> (name, f, new elements, new model or None if result is plain)"""
    n = len(m)
    many = lambda: [pick(ctx, rng, d, 0.08) for _ in range(rng.choice([0, 1, 2, 3, 5, 33]))]
    one = near(rng, d, m, pick(ctx, rng, d))
    if d.kind == 'vec':
        r = rng.randrange(9)
        if r == 0:
            return 'append', (lambda: x.append(one)), [one], m + [one]
        if r == 1:
            xs = many()
            return 'extend', (lambda: x.extend(iterable_of(rng, xs)[0])), xs, m + xs
        if r == 2:
            i = rng.randrange(-n, n + 1)
            m2 = m + [one] if i == n else m[:i % n] + [one] + m[i % n + 1:]
            return 'set', (lambda: x.set(i, one)), [one], m2
        if r == 3:
            xs = many()
            return '+', (lambda: x + xs), xs, m + xs
        if r == 4 and n:
            i, j = rng.randrange(n), rng.randrange(n)
            two = pick(ctx, rng, d)
            m2 = list(m)
            m2[i] = one
            m2[j] = two
            return 'mset', (lambda: x.mset(i, one, j, two)), [one, two], m2
        if r == 5 and n:
            i = rng.randrange(n)
            m2 = list(m)
            m2[i] = one
            if one is m[i]:
                return 'append', (lambda: x.append(one)), [one], m + [one]
            return 'transform', (lambda: x.transform([i], (lambda _: one))), [one], m2
        if r == 6 and n:
            i = rng.randrange(-n, n)
            m2 = m[:i % n] + m[i % n + 1:]
            return 'delete', (lambda: x.delete(i)), [], m2
        if r == 7:
            s = a_slice(rng, n)
            return 'slice', (lambda: x[s]), [], m[s]
        i = rng.randrange(n + 1)
        return 'transform const', (lambda: x.transform([i], one) if not callable(one) else x.transform([i], lambda _: one)), [one], m[:i] + [one] + m[i + 1:]
    if d.kind == 'set':
        r = rng.randrange(6)
        if r == 0:
            return 'add', (lambda: x.add(one)), [one], {**m, one: None}
        if r == 1:
            xs = many()
            return 'update', (lambda: x.update(iterable_of(rng, xs)[0])), xs, {**m, **dict.fromkeys(xs)}
        if r == 2 and m:
            k = rng.choice(list(m))
            return 'remove', (lambda: x.remove(k)), [], {e: None for e in m if e != k}
        if r == 3:
            k = rng.choice(list(m) + [one])
            return 'discard', (lambda: x.discard(k)), [], {e: None for e in m if e != k}
        xs = [e for e in many() + list(m)[:2]]
        sx = P.pset(xs)
        op = rng.choice(['|', '&', '-', '^'])
        f = {'|': lambda a, b: a | b, '&': lambda a, b: a & b, '-': lambda a, b: a - b, '^': lambda a, b: a ^ b}[op]
        return 'plain ' + op, (lambda: f(x, sx)), [], dict.fromkeys(f(set(m), set(xs)))
    k, v = one
    r = rng.randrange(8)
    if r == 0:
        return 'set', (lambda: x.set(k, v)), [one], {**m, k: v}
    if r == 1:
        xs = dict(many())
        return 'update', (lambda: x.update(xs)), list(xs.items()), {**m, **xs}
    if r == 2:
        xs, ys = dict(many()), dict(many())
        return 'update2', (lambda: x.update(xs, P.pmap(ys))), list(xs.items()) + list(ys.items()), {**m, **xs, **ys}
    if r == 3:
        xs = dict(many())
        return '+', (lambda: x + xs if rng.random() < 0.5 else x | P.pmap(xs)), list(xs.items()), {**m, **xs}
    if r == 4 and m:
        k = rng.choice(list(m))
        return 'update_with', (lambda: x.update_with(lambda a, b: v, {k: None})), [(k, v)], {**m, k: v}
    if r == 5 and m:
        k = rng.choice(list(m))
        if m[k] is v:
            return 'set', (lambda: x.set(k, v)), [(k, v)], {**m, k: v}
        return 'transform', (lambda: x.transform([k], lambda _: v)), [(k, v)], {**m, k: v}
    if r == 6 and m:
        k = rng.choice(list(m))
        return 'remove', (lambda: x.remove(k)), [], {a: b for a, b in m.items() if a != k}
    ks = [k] + list(m)
    k = rng.choice(ks)
    return 'discard', (lambda: x.discard(k)), [], {a: b for a, b in m.items() if a != k}


def evolver_script(ctx, rng, d, x, m):
    """Mixed valid and invalid updates through an evolver that is kept; persistent() in between."""
    e = x.evolver()
    cur = copy.copy(m)
    codes = set()
    for _ in range(rng.randrange(1, 10)):
        one = near(rng, d, cur, pick(ctx, rng, d, 0.12))
        v = verdict(d, [one])
        if d.kind == 'vec':
            n = len(cur)
            i = rng.randrange(-n, n + 1)
            act = rng.choice(['append', 'set', 'setitem', 'extend', 'del'])
            if act == 'del' and n and i < n:
                r = attempt(e.__delitem__, i)
                ctx.check_that(r[0] == 'ok', 'evolver delete failed', got=r)
                del cur[i]
                continue
            f = {'append': lambda: e.append(one), 'set': lambda: e.set(i, one), 'setitem': lambda: e.__setitem__(i, one), 'extend': lambda: e.extend([one]), 'del': lambda: e.append(one)}[act]
            if act in ('append', 'extend', 'del') or i == n:
                new = cur + [one]
            else:
                new = list(cur)
                new[i] = one
        elif d.kind == 'set':
            act = rng.choice(['add', 'add', 'remove'])
            if act == 'remove' and cur:
                k = rng.choice(list(cur))
                e.remove(k)
                cur = {a: None for a in cur if a != k}
                continue
            f = lambda: e.add(one)
            new = {**cur, one: None}
        else:
            act = rng.choice(['set', 'setitem', 'remove'])
            if act == 'remove' and cur:
                k = rng.choice(list(cur))
                e.remove(k) if rng.random() < 0.5 else e.__delitem__(k)
                cur = {a: b for a, b in cur.items() if a != k}
                continue
            f = (lambda: e.set(one[0], one[1])) if act == 'set' else (lambda: e.__setitem__(one[0], one[1]))
            new = {**cur, one[0]: one[1]}
        ctx.note('evolver.' + act, one, v[0])
        r = attempt(f)
        if v[0] == 'type':
            ctx.check_that(r[0] == 'exc', 'evolver took an element of a type that is not allowed', element=one)
            check_error(ctx, d, r[1], v, 'evolver')
            continue
        if v[0] == 'inv':
            if r[0] == 'exc':
                check_error(ctx, d, r[1], v, 'evolver')
                continue
            codes |= v[1]
            break
        ctx.check_that(r[0] == 'ok', 'evolver rejected a valid element', element=one, got=r)
        cur = new
        if rng.random() < 0.2:
            check_instance(ctx, d, e.persistent(), cur, 'evolver.persistent')
    r = attempt(e.persistent)
    if codes:
        ctx.check_that(r[0] == 'exc', 'evolver made an invalid instance', got=r, want=codes)
        check_error(ctx, d, r[1], ('inv', codes), 'evolver.persistent')
        r = attempt(e.persistent)
        if r[0] == 'ok':
            w = d.audit(r[1])
            ctx.check_that(w is None, 'second persistent() made an invalid instance: %s' % w, value=r[1])
        return None
    ctx.check_that(r[0] == 'ok', 'evolver rejected valid contents', got=r)
    check_instance(ctx, d, r[1], cur, 'evolver.persistent')
    return r[1], cur


PLAIN = {'delete', 'slice'}


def one_case(ctx, rng):
    pool = []
    for _ in range(rng.choice([0, 1, 2])):
        try:
            pool.append(a_coll(rng, pool=pool) if rng.random() < 0.6 else a_rec(rng, pool=pool))
        except Unsat:
            pass
    try:
        d = a_coll(rng, pool=pool)
    except Unsat:
        return
    ctx.seen('declarations', (d.kind, d.shape, len(d.doms), len(d.kdoms), len(d.invs), d.depth))
    ctx.note('declare', d.kind, d.shape, [x.desc for x in d.doms], [x.desc for x in d.kdoms], len(d.invs), nontrivial=0)
    H1 = type(P.PRecord)('H1', (P.PRecord,), {'f': P.field(type=d.cls)})
    H2 = type(P.PClass)('H2', (P.PClass,), {'f': P.field(type=(d.cls,))})
    have = []
    for _ in range(rng.randrange(2, 5)):
        try:
            k = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < 0.95 else rng.choice([33, 70])
            elems = norm(d, [pick(ctx, rng, d, 0.1) for _ in range(k)])
        except Unsat:
            continue
        v = verdict(d, elems)
        name, f, flags = bulk(ctx, rng, d, [H1, H2], elems)
        nested = any(dm.nested for dm in d.doms + d.kdoms)
        if v[0] == 'type' and (name == 'create' or 'field' in flags) and nested:
            continue            # create() would try to convert: C16
        ctx.note(name, d.kind, k, v[0])
        ctx.seen('routes', name)
        r = attempt(f)
        if v[0] == 'ok':
            ctx.check_that(r[0] == 'ok', name + ' rejected valid elements', elements=elems, got=r)
            m = as_model(d, elems)
            check_instance(ctx, d, r[1], m, name)
            have.append((r[1], m))
        else:
            ctx.check_that(r[0] == 'exc', name + ' accepted invalid elements', elements=elems, got=r, why=v)
            check_error(ctx, d, r[1], v, name)
    if not have:
        x = d.cls()
        have.append((x, as_model(d, [])))
    for _ in range(rng.randrange(6, 16)):
        x, m = rng.choice(have)
        try:
            if rng.random() < 0.2:
                new = evolver_script(ctx, rng, d, x, m)
                if new:
                    have.append(new)
                check_instance(ctx, d, x, m, 'original after evolver')
                continue
            name, f, elems, m2 = update(ctx, rng, d, x, m)
        except Unsat:
            continue
        v = verdict(d, elems)
        ctx.note(name, d.kind, len(m), elems, v[0])
        ctx.seen('routes', name)
        r = attempt(f)
        if v[0] != 'ok':
            ctx.check_that(r[0] == 'exc', name + ' accepted invalid elements', elements=elems, got=r, why=v, cls=d.cls)
            check_error(ctx, d, r[1], v, name)
        else:
            ctx.check_that(r[0] == 'ok', name + ' rejected valid elements', elements=elems, got=r)
            y = r[1]
            if name in PLAIN or name.startswith('plain'):
                ctx.check_that(same_content(d, y, m2), name + ': wrong content', got=y, want=m2)
                if isinstance(y, d.BASE[d.kind]):
                    w = d.audit(y, exact=False)
                    ctx.check_that(w is None, name + ': an invalid instance exists: %s' % w, value=y)
            else:
                check_instance(ctx, d, y, m2, name)
                have.append((y, m2))
        check_instance(ctx, d, x, m, 'original after ' + name)
    for x, m in have[-3:]:
        y = pickle.loads(pickle.dumps(x, rng.randrange(pickle.HIGHEST_PROTOCOL + 1)))
        w = d.audit(y)
        ctx.check_that(w is None and len(y) == len(x), 'unpickled instance invalid: %s' % w, value=y)
        z = copy.copy(x)
        check_instance(ctx, d, z, m, 'copy')
    # views of other declared classes: putting an instance of a wider class into a narrower one still checks
    for d2 in pool:
        if isinstance(d2, Coll) and d2.kind == d.kind:
            try:
                x = d2.value(rng)
            except Unsat:
                continue
            elems = list(x.items()) if d.kind == 'map' else list(x)
            if any(dm.nested for dm in d.doms + d.kdoms):
                continue
            v = verdict(d, elems)
            r = attempt(lambda: d.cls(x) if rng.random() < 0.5 else d.cls.create(x))
            ctx.note('from other class', v[0])
            if v[0] == 'ok':
                ctx.check_that(r[0] == 'ok', 'rejected valid elements of another checked class', got=r)
                check_instance(ctx, d, r[1], as_model(d, elems), 'from other class')
            else:
                ctx.check_that(r[0] == 'exc', 'accepted invalid elements of another checked class', got=r, why=v)
                check_error(ctx, d, r[1], v, 'from other class')


# ---- lineages: instances of base, derived, sibling classes as the source of instances of one another
def _inv_type(x):
    return not isinstance(x, bool), 'no-bool'


def _inv_small(x):
    return x < 100, 'small'


def _inv_even(x):
    return x % 2 == 0, 'even'


def lineage(ctx, rng):
    kind = rng.choice(['vec', 'set', 'map'])
    base = {'vec': P.CheckedPVector, 'set': P.CheckedPSet, 'map': P.CheckedPMap}[kind]
    wide, narrow = (int, float, str, bool), rng.choice([(int,), int, (int, float), bool, (int, str)])
    invs = rng.sample([_inv_type, _inv_small, _inv_even], rng.randrange(0, 3))
    where = rng.choice(['key', 'value']) if kind == 'map' else 'value'

    def attrs(types, invs):
        a = {}
        if types is not None:
            a['__key_type__' if where == 'key' else '__value_type__' if kind == 'map' else '__type__'] = types
        if invs:
            def inv(*kv):
                x = kv[0] if where == 'key' or kind != 'map' else kv[1]
                bad = [r[1] for r in (i(x) for i in invs if not isinstance(x, str)) if not r[0]]
                return not bad, tuple(bad)
            a['__invariant__'] = inv
        return a
    # class -> (types, invariants): the first is the root; later ones derive from an earlier one (or stand alone) and redefine the type and / or add invariants
    decls = []
    meta = type(base)
    root_types = rng.choice([wide, None, (int, bool, float)])
    for i in range(rng.randrange(2, 5)):
        parent = rng.choice([None] + decls) if i else None
        types = rng.choice([narrow, wide, None]) if i else root_types
        own = [x for x in invs if rng.random() < 0.6]
        cls = meta('L%d' % i, (parent[0] if parent else base,), attrs(types, own))
        tup = lambda t: () if t is None else t if isinstance(t, tuple) else (t,)
        eff = (tup(types) + tup(parent[1] if parent else None)) or None        # the types along a line of inheritance add up
        inh = list(parent[2]) if parent else []
        decls.append((cls, eff, inh + own))
    pool = [0, 1, 2, 3, 200, 1.0, 2.0, 2.5, True, False, 'a', 100, 101.0, '1']

    def ok_type(d, x):
        t = d[1]
        return t is None or isinstance(x, t)

    def bad_inv(d, x):
        return [] if isinstance(x, str) else [r[1] for r in (i(x) for i in d[2]) if not r[0]]

    def mk(xs):
        if kind == 'map':
            return dict((x, i) if where == 'key' else (i, x) for i, x in enumerate(xs))
        return list(xs)

    def held(x):
        return list(x.keys() if where == 'key' else x.values()) if kind == 'map' else list(x)
    for _ in range(12):
        xs = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))]
        a, b = rng.choice(decls), rng.choice(decls)
        good = [x for x in xs if ok_type(a, x) and not bad_inv(a, x)]
        src = attempt(a[0], mk(good))
        ctx.check_that(src[0] == 'ok', 'valid elements rejected', cls=a[0].__mro__[:-1], elements=good, got=src)
        src = src[1]
        plain = rng.random() < 0.35
        arg = mk(xs) if plain else src
        arrive = list(dict.fromkeys(xs)) if plain and (kind == 'set' or where == 'key') else xs if plain else held(src)
        if plain and kind == 'set':
            arg = list(arrive) + [y for x in arrive for y in xs if y == x and y is not x]      # equal doubles come later: they are not kept, but may be judged
            if any(not ok_type(b, y) or bad_inv(b, y) for y in arg[len(arrive):]):
                arg = list(arrive)
        bad = [x for x in arrive if not ok_type(b, x)]
        errs = [x for x in arrive if bad_inv(b, x)]
        route = rng.choice(['constructor', 'create', 'update', 'evolver', 'field'])
        if route == 'constructor':
            f = lambda: b[0](arg)
        elif route == 'create':
            f = lambda: b[0].create(arg)
        elif route == 'field':
            R = type(P.PRecord)('R', (P.PRecord,), {'f': P.field(type=b[0])})
            f = lambda: R(f=arg).f
        elif route == 'update':
            f = lambda: b[0]().extend(arg) if kind == 'vec' else b[0]().update(arg)
        else:
            def f():
                e = b[0]().evolver()
                if kind == 'vec':
                    e.extend(arg)
                else:
                    for x in (arg if kind == 'set' else list(arg.items())):
                        e.add(x) if kind == 'set' else e.set(*x)
                return e.persistent()
        ctx.note('lineage', kind, route, len(arrive), bool(bad), bool(errs))
        ctx.seen('lineages', (kind, route, plain, bool(bad), bool(errs), issubclass(a[0], b[0]), issubclass(b[0], a[0])))
        r = attempt(f)
        what = 'from %s by %s: ' % ('plain data' if plain else 'an instance of a related class', route)
        if not plain and route == 'field' and isinstance(src, b[0]):
            ctx.check_that(r[0] == 'ok' and r[1] is src, what + 'a value of the declared type is not stored as it is', got=r)
            continue
        if not plain and route == 'create' and type(src) is b[0]:
            ctx.check_that(r[0] == 'ok' and r[1] == src, what + 'rejected', got=r)
            continue
        if not plain and route == 'create' and isinstance(src, b[0]) and r[0] == 'ok' and r[1] is src:
            continue
        if bad and errs and r[0] == 'exc' and isinstance(r[1], P.InvariantException):
            pass                # whichever is met first
        elif bad:
            ctx.check_that(r[0] == 'exc' and isinstance(r[1], TYPE_ERR) and r[1].actual_value in bad, what + 'elements of types that are not allowed not rejected', got=r, offending=bad, types=b[1])
        elif errs:
            codes = set()
            for x in errs:
                codes |= set(bad_inv(b, x))
            ctx.check_that(r[0] == 'exc' and isinstance(r[1], P.InvariantException), what + 'elements violating an invariant not rejected', got=r, offending=errs)
            got = set()
            for c in r[1].invariant_errors:
                got |= set(c if isinstance(c, tuple) else (c,))
            ctx.check_that(got == codes, what + 'wrong invariant errors', got=got, want=codes)
        else:
            ctx.check_that(r[0] == 'ok' and type(r[1]) is b[0], what + 'valid elements rejected', got=r, elements=arrive, types=b[1])
            h = held(r[1])
            ctx.check_that(len(h) == len(arrive) and all(ok_type(b, x) and not bad_inv(b, x) for x in h), what + 'wrong content', got=h, want=arrive)
        ctx.counters['lineage'] += 1


# ---- tampered pickles: the same bytes with one element exchanged
def not_evil(x):
    return x != 'MARKEVIL', 'evil'


class TV(P.CheckedPVector):
    __type__ = str
    __invariant__ = not_evil


class TS(P.CheckedPSet):
    __type__ = str
    __invariant__ = not_evil


class TM(P.CheckedPMap):
    __key_type__ = str
    __value_type__ = (str, int)
    __invariant__ = lambda k, v: (k != 'MARKEVIL' and v != 'MARKEVIL', 'evil')


class TVsub(TV):
    pass


def tampered(ctx):
    made = [TV(['a', 'MARKGOOD', 'b']), TS(['a', 'MARKGOOD']), TM({'MARKGOOD': 'x'}), TM({'x': 'MARKGOOD', 'y': 'z'}), TVsub(['MARKGOOD'])]
    for (x, proto), rng in ctx.items('tampered', [(x, p) for x in made for p in range(pickle.HIGHEST_PROTOCOL + 1)]):
        b = pickle.dumps(x, proto)
        ctx.check_that(b.count(b'MARKGOOD') == 1, 'marker not found in the pickle')
        ctx.note('tampered', type(x).__name__, proto)
        y = pickle.loads(b)
        ctx.check_that(y == x and type(y) is type(x), 'pickle round trip wrong', got=y)
        r = attempt(pickle.loads, b.replace(b'MARKGOOD', b'MARKEVIL'))
        ctx.check_that(r[0] == 'exc' and isinstance(r[1], P.InvariantException) and codes_of(r[1]) == {'evil'}, 'unpickling made an invalid instance', got=r)


# ---- apart from the checks they behave like the unchecked collections
class NoRepr:
    """repr, hash aside (they name the class), operations of the unchecked family."""
    def gen(self, *a):
        while True:
            op = super().gen(*a)
            if 'repr' not in op.name and op.name not in ('str', 'attr'):
                return op


class AsVec(NoRepr, fam.Vec):
    def start(self, rng, ctx, P_, uni=None):
        l = values(rng, size(rng, ctx, small=0.7), ctx)
        return AnyVec(iterable_of(rng, l)[0]), l, 'AnyVec'


class AsMap(NoRepr, fam.Map):
    def start(self, rng, ctx, P_, uni):
        d = {k: value(rng, ctx) for k in uni if rng.random() < 0.5}
        return AnyMap(d), d, 'AnyMap'


class AsSet(NoRepr, fam.Set):
    def start(self, rng, ctx, P_, uni):
        xs = [k for k in uni if rng.random() < 0.5]
        return AnySet(xs), {k: k for k in xs}, 'AnySet'


def run(ctx):
    tampered(ctx)
    for i, rng in ctx.cases('declared', 450):
        unless_unsat(ctx, one_case, rng)
    for i, rng in ctx.cases('lineage', 300):
        lineage(ctx, rng)
    for name, F in (('vec', AsVec()), ('map', AsMap()), ('set', AsSet())):
        for i, rng in ctx.cases('like-' + name, 60):
            fam.history(ctx, rng, P, F, rng.randrange(5, 25))
