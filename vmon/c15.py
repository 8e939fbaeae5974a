"""C15: records and classes always satisfy their declaration."""
import copy, pickle
import pyrsistent as P
from .base import *
from .decl import *


def stored_ok(f, got, want):
    if isinstance(want, tuple) and f.generated and len(want) == 2 and want[0] in ('vec', 'set', 'map'):
        g = f.generated
        if type(got) is not g.cls:
            return False
        if want[0] == 'vec':
            return len(got) == len(want[1]) and all(a is b for a, b in zip(got, want[1]))
        if want[0] == 'set':
            return set(got) == set(want[1])
        return dict(got.items()) == want[1]
    return got is want or (type(got) is type(want) and got == want)


def check_instance(ctx, d, x, vals, what):
    ctx.counters['audits'] += 1
    w = d.audit(x)
    ctx.check_that(w is None, what + ': an invalid instance exists: it %s' % w, value=x, cls=d.cls)
    have = d.present(x)
    ctx.check_that(set(have) == set(vals), what + ': wrong set of fields present', got=sorted(have), want=sorted(vals))
    for n, v in vals.items():
        ctx.check_that(stored_ok(d.fields[n], have[n], v), what + ': field has a wrong value', field=n, got=have[n], want=v)
        ctx.check_that(getattr(x, n) is have[n], what + ': attribute access differs', field=n)
        if d.kind == 'rec':
            ctx.check_that(x[n] is have[n] and n in x, what + ': item access differs', field=n)


def clear(d):
    for f in d.fields.values():
        f.log.clear()


def check_factories(ctx, d, raws, ok, what, initials=True):
    """raws: {field: raw value set}.  Exactly once on values being set, never on carried-over ones."""
    for n, f in d.fields.items():
        if not f.fac:
            continue
        ctx.counters['factory_checks'] += 1
        if n in raws:
            good = len(f.log) == 1 and f.log[0] is raws[n] if ok else len(f.log) <= 1 and all(v is raws[n] for v in f.log)
            ctx.check_that(good, what + ': factory not called exactly once on the value being set', field=n, calls=f.log, value=raws[n], succeeded=ok)
        elif f.log:
            only_initial = initials and f.initial and len(f.log) == 1 and f.log[0] is f.initial[0]
            ctx.check_that(only_initial, what + ': factory called on a value that was not set', field=n, calls=f.log)


def raw_for(ctx, rng, d, f):
    """A raw value for the field: valid, of a wrong type, or violating an invariant."""
    r = rng.random()
    if r < 0.7:
        try:
            return d.good_raw(rng, f)
        except Unsat:
            pass
    if f.generated:
        g = f.generated
        try:
            l = g.content(rng, rng.choice([0, 1, 3]))
        except Unsat:
            l = {} if g.kind == 'map' else []
        if g.kind == 'map':
            b, bk = g.bad(rng), g.bad(rng, True)
            if b and rng.random() < 0.5:
                return {**l, g.typed(rng, True): b[0]}
            return {**l, bk[0]: g.typed(rng)} if bk else l
        b, br = g.bad(rng), g.broken(rng)
        if br and rng.random() < 0.6:
            return l + [br[0]]
        return l + [b[0]] if b else l
    if f.auto is not None:
        return rng.choice([5, 1.5])
    if rng.random() < 0.5:
        for _ in range(20):
            v = f.dom.any_good(rng)
            if d.outcome(f, v)[0] == 'invariant':
                return v
    b = f.dom.bad(rng)
    return b[0] if b else f.dom.any_good(rng)


def settle(ctx, d, r, e, what, raws, initials=True, x=None, factories=True):
    """Compare an outcome with the expectation -> (instance, vals) or None."""
    if factories:
        check_factories(ctx, d, {k: v for k, v in raws.items() if k in d.fields}, e[0] == 'ok', what, initials)
    if e[0] == 'ok':
        ctx.check_that(r[0] == 'ok', what + ' rejected valid values', raws=raws, got=r, cls=d.cls)
        check_instance(ctx, d, r[1], e[1], what)
        return r[1], e[1]
    ctx.counters['failing_ops'] += 1
    ctx.check_that(r[0] == 'exc', what + ' accepted invalid values', raws=raws, why=e[1], got=r, cls=d.cls)
    ctx.check_that(verdict_ok(r[1], e[1]), what + ': wrong exception', got=(type(r[1]).__name__, str(r[1]), getattr(r[1], 'missing_fields', None)), want=e[1], raws=raws, cls=d.cls)
    for v in e[1]:
        ctx.counters['rejected.' + ('invariant' if isinstance(v, tuple) else v.__name__)] += 1
    return None


def construct(ctx, rng, d):
    kw = {}
    for n, f in d.fields.items():
        need = f.mandatory and not f.initial
        if rng.random() < (0.93 if need else 0.65):
            kw[n] = raw_for(ctx, rng, d, f) if rng.random() < 0.35 else d.good_raw(rng, f)
    if rng.random() < 0.06:
        kw[rng.choice(['nope', 'xx', '_x', 'X'])] = 1
    e = d.expect(kw)
    clear(d)
    how = rng.randrange(4)
    names = list(kw)
    rng.shuffle(names)
    kw = {n: kw[n] for n in names}
    before = dict(kw)
    if how == 0:
        r = attempt(lambda: d.cls.create(kw))
    elif how == 1:
        r = attempt(lambda: d.cls.create(P.pmap(kw)))
    else:
        r = attempt(lambda: d.cls(**kw))
    name = 'create' if how < 2 else 'constructor'
    ctx.note(name, d.kind, sorted(kw), e[0])
    ctx.check_that(set(kw) == set(before) and all(kw[k] is before[k] for k in kw), 'the mapping passed in was changed')
    return settle(ctx, d, r, e, name, kw)


def update(ctx, rng, d, x, vals):
    """One operation on an existing instance."""
    r = rng.random()
    names = list(d.fields)
    if r < 0.45:
        ks = rng.sample(names, min(len(names), rng.choice([1, 1, 1, 2, 3])))
        raws = {k: raw_for(ctx, rng, d, d.fields[k]) for k in ks}
        if rng.random() < 0.05:
            raws['nope'] = 3
        again = d.kind == 'rec' and rng.random() < 0.12
        if again:                      # by a record of the same class
            y = rng.choice([x, copy.copy(x), x.discard(rng.choice(list(vals)))]) if vals and not d.ginvs and not any(f.mandatory or f.initial for f in d.fields.values()) else x
            raws = dict(d.present(y))
        e = d.expect(raws, {k: v for k, v in vals.items() if k not in raws}, use_initial=d.kind == 'cls')
        forms = [lambda: x.set(**raws)]
        if len(raws) == 1:
            (k, v), = raws.items()
            forms += [lambda: x.set(k, v)] * 2
            if d.kind == 'cls' or True:
                cur = d.present(x).get(k, x)
                if k in vals and cur is not v:
                    forms.append(lambda: x.transform([k], lambda _: v))
        if d.kind == 'rec':
            forms += [lambda: x.update(raws), lambda: x + raws, lambda: x.update(P.pmap(raws)), lambda: x.update_with(lambda old, new: new, raws)]
        if again:
            forms = [lambda: x.update(y), lambda: x + y, lambda: x.update_with(lambda old, new: new, y)]
        f = rng.choice(forms)
        clear(d)
        ctx.note('set', d.kind, sorted(raws), e[0])
        return settle(ctx, d, attempt(f), e, 'set', raws, initials=d.kind == 'cls')
    if r < 0.62:
        k = rng.choice(names + ['nope']) if rng.random() < 0.3 or not vals else rng.choice(list(vals))
        clear(d)
        how = rng.random()
        if k not in vals:
            ctx.note('remove absent', d.kind, k)
            if d.kind == 'rec' and how < 0.5:
                ctx.check_that(x.discard(k) is x, 'discarding an absent field does not return the same record')
                return None
            q = attempt(x.remove, k)
            ctx.counters['failing_ops'] += 1
            ctx.check_that(q[0] == 'exc' and isinstance(q[1], KeyError if d.kind == 'rec' else AttributeError), 'removing an absent field: wrong outcome', got=q)
            return None
        e = d.expect({}, {n: v for n, v in vals.items() if n != k}, use_initial=d.kind == 'cls')
        ctx.note('remove', d.kind, k, e[0])
        if d.kind == 'rec' and how < 0.3:
            q = attempt(x.discard, k)
        elif how < 0.5:
            q = attempt(lambda: x.transform([k], P.discard))
        else:
            q = attempt(x.remove, k)
        return settle(ctx, d, q, e, 'remove', {}, initials=d.kind == 'cls')
    if r < 0.72:
        gens = [n for n in vals if d.fields[n].generated and d.fields[n].generated.kind == 'vec' and d.present(x)[n] is not None and len(d.present(x)[n])]
        if not gens:
            return None
        k = rng.choice(gens)
        f, g, cur = d.fields[k], d.fields[k].generated, d.present(x)[k]
        i = rng.randrange(len(cur))
        b = rng.choice([g.bad(rng), g.broken(rng), None, None])
        try:
            el = b[0] if b else g.good(rng)
        except Unsat:
            return None
        if el is cur[i]:
            return None
        new = list(cur)
        new[i] = el
        o = g.create(new, False)
        ctx.note('transform nested', d.kind, k, o[0])
        q = attempt(lambda: x.transform([k, i], lambda _: el))
        if o[0] != 'ok':
            ctx.check_that(q[0] == 'exc' and isinstance(q[1], (P.InvariantException, TypeError)), 'nested transform accepted an invalid element', got=q)
            ctx.counters['failing_ops'] += 1
            return None
        e = d.expect({k: g.cls(new)}, {n: v for n, v in vals.items() if n != k}, use_initial=d.kind == 'cls')
        return settle(ctx, d, q, e, 'transform', {}, factories=False)
    if r < 0.8:
        y = rng.choice([lambda: copy.copy(x), lambda: pickle.loads(pickle.dumps(x, rng.randrange(6))), lambda: copy.deepcopy(x)])
        if d.kind == 'rec' and any(f.initial and n not in vals for n, f in d.fields.items()):
            return None           # known finding under C11
        clear(d)
        ctx.note('copy/pickle', d.kind)
        z = y()
        for n, f in d.fields.items():
            ctx.check_that(all(f.initial and v is f.initial[0] for v in f.log), 'factory called while restoring', field=n, calls=f.log)
        w = d.audit(z)
        ctx.check_that(w is None and z == x, 'restored instance invalid: %s' % w, value=z)
        ctx.check_that(d.cls.create(x) is x, 'create() of an instance does not return it')
        return None
    if d.kind == 'cls' and r < 0.9:
        n = rng.choice(names + ['nope', '_pclass_frozen', '__class__x'])
        for f in (lambda: setattr(x, n, rng.choice([1, None, vals.get(n)])), lambda: delattr(x, n)):
            q = attempt(f)
            ctx.counters['failing_ops'] += 1
            ctx.check_that(q[0] == 'exc' and isinstance(q[1], AttributeError), 'attribute of an instance can be set or deleted', name=n, got=q)
        ctx.note('setattr', n)
        check_instance(ctx, d, x, vals, 'after setattr/delattr')
        return None
    return evolver_rec(ctx, rng, d, x, vals) if d.kind == 'rec' else evolver_cls(ctx, rng, d, x, vals)


def evolver_rec(ctx, rng, d, x, vals):
    e = x.evolver()
    cur = dict(vals)
    names = list(d.fields)
    ctx.note('evolver', 'rec')
    for _ in range(rng.randrange(1, 8)):
        k = rng.choice(names)
        f = d.fields[k]
        if rng.random() < 0.25:
            if k in cur:
                e.remove(k) if rng.random() < 0.5 else e.__delitem__(k)
                del cur[k]
            continue
        if rng.random() < 0.25:
            exp = d.expect({}, cur, use_initial=False)
            r = attempt(e.persistent)
            if settle(ctx, d, r, exp, 'evolver.persistent', {}, factories=False) and rng.random() < 0.5:
                ctx.check_that(e.persistent() == r[1], 'second persistent() differs')
            continue
        raw = raw_for(ctx, rng, d, f) if rng.random() < 0.25 else d.good_raw(rng, f)
        o = d.outcome(f, raw)
        clear(d)
        r = attempt(lambda: e.set(k, raw)) if rng.random() < 0.5 else attempt(lambda: e.__setitem__(k, raw))
        check_factories(ctx, d, {k: raw}, o[0] == 'ok', 'evolver.set', initials=False)
        if o[0] == 'immediate':
            ctx.counters['failing_ops'] += 1
            ctx.check_that(r[0] == 'exc' and isinstance(r[1], o[1]), 'evolver accepted a value of a type that is not allowed', field=k, raw=raw, got=r)
            continue
        ctx.check_that(r[0] == 'ok', 'evolver.set raised', field=k, raw=raw, got=r)
        if o[0] == 'invariant':
            r = attempt(e.persistent)
            ctx.counters['failing_ops'] += 1
            miss = {'%s.%s' % (d.cls.__name__, n) for n, ff in d.fields.items() if ff.mandatory and n not in cur and n != k}
            maybe = {'%s.%s' % (d.cls.__name__, k)}
            ctx.check_that(r[0] == 'exc' and verdict_ok(r[1], [('inv', frozenset(o[1]), frozenset(miss), frozenset(maybe))]), 'evolver made an invalid record', field=k, raw=raw, got=r, want=o)
            check_instance(ctx, d, x, vals, 'original after failed evolver')
            return None
        cur[k] = o[1]
        got = e[k]
        ctx.check_that(stored_ok(f, got, o[1]), 'evolver reads something else than was set', field=k, got=got, want=o[1])
    r = attempt(lambda: e.set('nope', 1))
    ctx.check_that(r[0] == 'exc' and isinstance(r[1], AttributeError), 'evolver accepted an undeclared field', got=r)
    exp = d.expect({}, cur, use_initial=False)
    out = settle(ctx, d, attempt(e.persistent), exp, 'evolver.persistent', {}, factories=False)
    check_instance(ctx, d, x, vals, 'original after evolver')
    return out


def evolver_cls(ctx, rng, d, x, vals):
    e = x.evolver()
    data = dict(d.present(x))          # what the evolver holds
    sets = {}                          # raw values set
    carried = dict(vals)
    names = list(d.fields)
    dirty = False
    ctx.note('evolver', 'cls')
    for _ in range(rng.randrange(1, 8)):
        k = rng.choice(names) if rng.random() < 0.97 else 'nope'
        if rng.random() < 0.25:
            r = attempt(e.remove, k) if rng.random() < 0.5 else attempt(e.__delitem__, k)
            if k in data:
                ctx.check_that(r[0] == 'ok', 'evolver remove failed', got=r)
                del data[k]
                sets.pop(k, None)
                carried.pop(k, None)
                dirty = True
            else:
                ctx.check_that(r[0] == 'exc' and isinstance(r[1], AttributeError), 'evolver removed an absent field', got=r)
            continue
        raw = 3 if k == 'nope' else raw_for(ctx, rng, d, d.fields[k]) if rng.random() < 0.2 else d.good_raw(rng, d.fields[k])
        how = rng.randrange(3)
        if how == 0:
            e.set(k, raw)
        elif how == 1:
            e[k] = raw
        else:
            setattr(e, k, raw)
        if data.get(k, e) is not raw:
            data[k] = raw
            sets[k] = raw
            carried.pop(k, None)
            dirty = True
        ctx.check_that(e[k] is raw and getattr(e, k) is raw, 'evolver does not hold what was set', field=k, got=e[k])
        if rng.random() < 0.25:
            clear(d)
            exp = d.expect(sets, carried)
            r = attempt(e.persistent)
            if not dirty:
                ctx.check_that(r[0] == 'ok' and r[1] is x, 'unchanged evolver does not return the original')
            else:
                settle(ctx, d, r, exp, 'evolver.persistent', sets)
    clear(d)
    r = attempt(e.persistent)
    if not dirty:
        ctx.check_that(r[0] == 'ok' and r[1] is x, 'unchanged evolver does not return the original')
        return None
    out = settle(ctx, d, r, d.expect(sets, carried), 'evolver.persistent', sets)
    check_instance(ctx, d, x, vals, 'original after evolver')
    return out


def one_case(ctx, rng):
    pool = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        try:
            pool.append(a_coll(rng, pool=pool) if rng.random() < 0.5 else a_rec(rng, pool=pool))
        except Unsat:
            pass
    try:
        d = a_rec(rng, pool=pool)
    except Unsat:
        return
    ctx.seen('declarations', (d.kind, d.shape, len(d.fields), sum(f.mandatory for f in d.fields.values()), len(d.ginvs), d.depth))
    ctx.note('declare', d.kind, d.shape, [(n, f.dom.desc, f.mandatory, bool(f.fac), len(f.invs), bool(f.initial)) for n, f in d.fields.items()], len(d.ginvs), nontrivial=0)
    have = []
    for _ in range(rng.randrange(3, 7)):
        try:
            out = construct(ctx, rng, d)
        except Unsat:
            continue
        if out:
            have.append(out)
    if not have:
        try:
            kw = d.plausible(rng)
        except Unsat:
            return
        have.append((d.cls(**kw), d.expect(kw)[1]))
    for _ in range(rng.randrange(8, 20)):
        x, vals = rng.choice(have)
        try:
            out = update(ctx, rng, d, x, vals)
        except Unsat:
            continue
        check_instance(ctx, d, x, vals, 'original')
        if out:
            have.append(out)
    for x, vals in have:
        check_instance(ctx, d, x, vals, 'at the end')


def evil(x):
    return x != 'MARKEVIL', 'evil'


class TR(P.PRecord):
    a = P.field(type=str, invariant=evil, mandatory=True)
    b = P.field(initial='q')
    __invariant__ = lambda r: (r.get('b') != 'MARKEVIL', 'evil')


class TC(P.PClass):
    a = P.field(type=str, invariant=evil, mandatory=True)
    b = P.field(initial='q')
    __invariant__ = lambda r: (getattr(r, 'b', None) != 'MARKEVIL', 'evil')


class TR2(TR):
    c = P.field()


class TC2(TC):
    c = P.field()


def tampered(ctx):
    made = [TR(a='MARKGOOD'), TR(a='x', b='MARKGOOD'), TC(a='MARKGOOD'), TC(a='x', b='MARKGOOD'), TR2(a='MARKGOOD', c=1), TC2(a='a', b='MARKGOOD', c=2)]
    for (x, proto), rng in ctx.items('tampered', [(x, p) for x in made for p in range(pickle.HIGHEST_PROTOCOL + 1)]):
        b = pickle.dumps(x, proto)
        ctx.note('tampered', type(x).__name__, proto)
        y = pickle.loads(b)
        ctx.check_that(y == x and type(y) is type(x), 'pickle round trip wrong', got=y)
        r = attempt(pickle.loads, b.replace(b'MARKGOOD', b'MARKEVIL'))
        ctx.check_that(r[0] == 'exc' and isinstance(r[1], P.InvariantException) and codes_of(r[1]) == {'evil'}, 'unpickling made an invalid instance', got=r)


def probe_known(ctx):
    class U1(A):
        pass
    f1 = P.pvector_field(U1)
    f2 = P.pvector_field(U1, item_invariant=lambda x: (x.n > 3, 'small'))
    X = type(P.PRecord)('X', (P.PRecord,), {'f': f2})
    if attempt(lambda: X(f=[U1(1)]))[0] == 'ok':
        ctx.finding('seq-field-item-invariant-cache', 'item_invariant of pvector_field(U, item_invariant=...) ignored after pvector_field(U)')


def run(ctx):
    if ctx.shard == 0 and ctx.only is None:
        probe_known(ctx)
    tampered(ctx)
    for i, rng in ctx.cases('declared', 500):
        unless_unsat(ctx, one_case, rng)
