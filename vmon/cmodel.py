"""C02, C04-C08: every history of operations against the built-in model."""
import pyrsistent as P
from .base import *
from .fam import *

FAM = {'C02': 'vec', 'C04': 'map', 'C05': 'set', 'C06': 'bag', 'C07': 'plist', 'C08': 'deque'}


def run(ctx):
    F = FAMS[FAM[ctx.check]]
    if ctx.mode == 'sweep':
        return globals()['sweep_' + F.name](ctx, F)
    n, steps = {'vec': (700, 24), 'map': (900, 30), 'set': (1100, 30), 'bag': (1400, 24), 'plist': (1600, 30), 'deque': (1700, 30)}[F.name]
    for i, rng in ctx.cases('hist', n):
        history(ctx, rng, P, F, rng.choice([steps // 3, steps, 2 * steps]))


# ------------------------------------------------------------------ vectors: size x route x operation x index
def eqv(ctx, F, v, l, rng, what):
    ctx.note('sweep.' + what, len(l))
    if len(l) <= 3000:
        F.audit(ctx, v, l, rng)
        return
    ctx.counters['audits'] += 1
    n = len(l)
    ctx.check_that(len(v) == n, what + ': wrong length', got=len(v), want=n)
    ctx.check_that(same_seq(list(v), l), what + ': wrong elements', size=n)
    for i in [0, 31, 32, 1023, 1024, 32767, 32768, n - 1, n - 32, n - 33, n - 64, -1, -n] + [rng.randrange(n) for _ in range(30)]:
        if -n <= i < n:
            ctx.check_that(v[i] is l[i], what + ': wrong element by index', index=i, size=n)
    for bad in (n, -n - 1, n + 32, n + 1024, 2**31, -2**31, 2**62):
        ctx.check_that(isinstance(attempt(v.__getitem__, bad)[1], IndexError), what + ': out of range index accepted', index=bad, size=n)


def routes(P, l):
    n = len(l)
    yield 'bulk', lambda: P.pvector(l)
    yield 'generator', lambda: P.pvector(x for x in l)
    if n <= 5000:
        def by_append():
            v = P.pvector()
            for x in l:
                v = v.append(x)
            return v
        yield 'append', by_append
    k = max(0, n - 40)

    def by_mixed():
        v = P.pvector(l[:k])
        for x in l[k:]:
            v = v.append(x)
        return v
    yield 'bulk+append', by_mixed

    def by_evolver():
        e = P.pvector(l[:k]).evolver()
        for x in l[k:]:
            e.append(x)
        return e.persistent()
    yield 'evolver', by_evolver
    for c in (1, 32, 33):
        def by_halves(c=c):
            v = P.pvector(l[:n // 2])
            return v.extend(l[n // 2:n - c]).extend(l[n - c:] if c < n - n // 2 else l[max(n // 2, n - c):]) if n else v
        if n // 2 <= n - c:
            yield 'extend-%d' % c, by_halves


def sweep_vec(ctx, F):
    sizes = sorted(set(BOUNDARY) | set(ctx.consts['sizes']))
    if ctx.spec.get('sizes') == 'big':
        sizes = list(BIG) + [n for n in ctx.consts['big'] if n < 140000]
        if ctx.impl == 'c':
            sizes += HUGE
        else:
            sizes += [1048576 + 33]
    elems = [E() for _ in range(max(sizes) + 1)]
    work = [(n, r) for n in sizes for r in range(8)]
    for (n, r), rng in ctx.items('sweep', work):
        l = elems[:n]
        rs = list(routes(P, l))
        if r >= len(rs) or (n > 200000 and r in (1, 2)):
            continue
        how, mk = rs[r]
        ctx.seen('size_route', (n, how))
        v = mk()
        eqv(ctx, F, v, l, rng, how)
        small = n <= 3000
        tail = ((n - 1) >> 5) << 5 if n else 0
        idx = {0, n - 1, n, -1, -n, tail, tail - 1, tail - 32, 31, 32, 1023, 1024, 32767, 32768, 1055, 1056} if small or ctx.thorough else {0, n - 1, n, tail - 1, -n}
        idx = sorted(i for i in idx if -n <= i <= n)
        if n > 200000:
            idx = idx[:3]
        for i in idx:
            x = E()
            eqv(ctx, F, v.set(i, x), vec_set(l, i, x), rng, 'set')
            e = v.evolver()
            e[i] = x
            eqv(ctx, F, e.persistent(), vec_set(l, i, x), rng, 'evolver-set')
        for k in ((1, 2, 31, 32, 33, 64, 65, 1024, 1057) if small else (1, 33, 1057)):
            xs = [E() for _ in range(k)]
            eqv(ctx, F, v.extend(xs), l + xs, rng, 'extend')
        w, lw = v, list(l)
        for j in range(70 if small else 34):
            x = E()
            w = w.append(x)
            lw.append(x)
            if j in (0, 31, 32, 33, 63, 64, 69):
                eqv(ctx, F, w, lw, rng, 'append')
        for i in idx:
            if 0 <= i < n and (small or i in (0, n - 1)):
                eqv(ctx, F, v.delete(i), l[:i] + l[i + 1:], rng, 'delete')
                e = v.evolver()
                del e[i]
                eqv(ctx, F, e.persistent(), l[:i] + l[i + 1:], rng, 'evolver-delete')
        for _ in range(6 if small else 2):
            a, b = bound(rng, n), bound(rng, n)
            st = rng.choice([None, 1, -1, 2, -3])
            eqv(ctx, F, v[a:b:st], l[a:b:st], rng, 'slice')
        eqv(ctx, F, v, l, rng, 'original')


# ------------------------------------------------------------------ maps and sets: growth step x collisions
def sweep_map(ctx, F):
    """One-by-one growth and shrinkage across every reallocation for systematic hash patterns, audited at every size."""
    pats = []
    for mod in (1, 2, 3, 4, 8, 16, 64, 256):
        for base in (0, 1, -1, -2, 2**61 - 1, -2**61, 2**31):
            pats.append((mod, base))
    top = 260 if ctx.thorough else 110
    for (mod, base), rng in ctx.items('growth', pats):
        step = rng.choice([1, 2, 32, 1024])
        keys = [K(i, base + (i % mod) * step) for i in range(top)]
        pre = rng.choice([0, 0, 1, 2, 3, 5, 8, 31])
        v, d = P.pmap(pre_size=pre), {}
        e = P.pmap(pre_size=pre).evolver()
        kept = []
        for i, k in enumerate(keys):
            x = E()
            v = v.set(k, x)
            e.set(k, x)
            d[k] = x
            ctx.note('growth.set', mod, base, i)
            F.audit(ctx, v, d, rng)
            if i % 13 == 0:
                F.audit(ctx, e.persistent(), d, rng)
                kept.append((v, dict(d)))
            if i % 7 == 0:
                j = rng.randrange(i + 1)
                y = E()
                v, d[keys[j]] = v.set(K(j, keys[j].h), y), y
                e[keys[j]] = y
                F.audit(ctx, v, d, rng)
        F.audit(ctx, e.persistent(), d, rng)
        order = list(keys)
        rng.shuffle(order)
        for i, k in enumerate(order):
            v = v.remove(k)
            del d[k]
            del e[k]
            ctx.note('growth.remove', mod, base, i)
            F.audit(ctx, v, d, rng)
            ctx.check_that(len(e) == len(d) and k not in e, 'evolver wrong after removal', key=k)
            if i % 9 == 0:
                F.audit(ctx, e.persistent(), d, rng)
        F.audit(ctx, P.pmap(dict.fromkeys(keys)), dict.fromkeys(keys), rng)
        for w, dw in kept:
            F.audit(ctx, w, dw, rng)
    # large maps, all routes
    sizes = sorted(set([500, 1000, 3000, 20000] + [n for n in ctx.consts['sizes'] if n > 100] + [n for n in ctx.consts['big'] if n < 40000]))
    for n, rng in ctx.items('large', [s for s in sizes for _ in range(3)]):
        d = {(i if i % 3 else 'k%d' % i): E() for i in range(n)}
        v, how = build_map(rng, ctx, P, d)
        ctx.note('large', how, n)
        F.audit(ctx, v, d, rng)
        for k in rng.sample(list(d), min(60, n)):
            v = v.remove(k)
            del d[k]
        x = E()
        v = v.set('new', x)
        d['new'] = x
        F.audit(ctx, v, d, rng)


def sweep_set(ctx, F):
    pats = [(mod, base) for mod in (1, 2, 3, 4, 8, 32, 128) for base in (0, -1, -2, 2**61 - 1, 2**31)]
    top = 260 if ctx.thorough else 110
    for (mod, base), rng in ctx.items('growth', pats):
        step = rng.choice([1, 2, 32, 1024])
        keys = [K(i, base + (i % mod) * step) for i in range(top)]
        v, d = P.pset(), {}
        e = P.pset().evolver()
        kept = []
        for i, k in enumerate(keys):
            v = v.add(k)
            e.add(k)
            d[k] = k
            ctx.note('growth.add', mod, base, i)
            F.audit(ctx, v, d, rng)
            if i % 13 == 0:
                F.audit(ctx, e.persistent(), d, rng)
                kept.append((v, dict(d)))
            if i % 10 == 0:
                half = P.pset(keys[:i // 2])
                hs = set(keys[:i // 2])
                for name, r, q in (('&', v & half, set(d) & hs), ('-', v - half, set(d) - hs), ('|', half | v, hs | set(d)), ('^', v ^ half, set(d) ^ hs)):
                    F.audit(ctx, r, dict.fromkeys(q), rng)
                ctx.check_that(half <= v and v >= half and (half < v) == (hs < set(d)) and half.issubset(v) and v.issuperset(half), 'subset comparison wrong', i=i)
        order = list(keys)
        rng.shuffle(order)
        for i, k in enumerate(order):
            v = v.remove(k)
            e.remove(k)
            del d[k]
            ctx.note('growth.remove', mod, base, i)
            F.audit(ctx, v, d, rng)
            if i % 9 == 0:
                F.audit(ctx, e.persistent(), d, rng)
        for w, dw in kept:
            F.audit(ctx, w, dw, rng)
    sizes = sorted(set([500, 3000, 20000] + [n for n in ctx.consts['sizes'] if n > 100]))
    for n, rng in ctx.items('large', [s for s in sizes for _ in range(2)]):
        xs = [(i if i % 3 else 'k%d' % i) for i in range(n)]
        d = {x: x for x in xs}
        v = P.pset(xs)
        ctx.note('large', n)
        F.audit(ctx, v, d, rng)
        w = P.pset(xs[n // 2:]).update(range(50))
        for r, q in ((v & w, set(xs) & set(w)), (v | w, set(xs) | set(w)), (v - w, set(xs) - set(w)), (v ^ w, set(xs) ^ set(w))):
            F.audit(ctx, r, dict.fromkeys(q), rng)


def sweep_bag(ctx, F):
    pats = [(mod, base) for mod in (1, 2, 4, 8, 64) for base in (0, -1, 2**61 - 1)]
    for (mod, base), rng in ctx.items('growth', pats):
        keys = [K(i, base + (i % mod) * 32) for i in range(50)]
        v, d = P.pbag([]), {}
        for i in range(160):
            k = rng.choice(keys[:i // 3 + 1])
            v = v.add(k)
            d[k] = d.get(k, 0) + 1
            ctx.note('growth.add', mod, base, i)
            F.audit(ctx, v, d, rng)
        hi = P.pbag([keys[0]] * rng.choice([100, 255, 256, 257, 1000]) + keys)
        F.audit(ctx, hi + v, dict(Counter(list(hi)) + Counter(d)), rng)
        F.audit(ctx, hi - v, dict(Counter(list(hi)) - Counter(d)), rng)
        F.audit(ctx, v - hi, dict(Counter(d) - Counter(list(hi))), rng)
        F.audit(ctx, hi | v, dict(Counter(list(hi)) | Counter(d)), rng)
        F.audit(ctx, hi & v, dict(Counter(list(hi)) & Counter(d)), rng)
        order = [k for k, c in d.items() for _ in range(c)]
        rng.shuffle(order)
        for i, k in enumerate(order):
            v = v.remove(k)
            d[k] -= 1
            if not d[k]:
                del d[k]
            ctx.note('growth.remove', mod, base, i)
            F.audit(ctx, v, d, rng)


def sweep_plist(ctx, F):
    """All slices and indices of all small lists."""
    for n, rng in ctx.items('all', list(range(0, 9)) + [12, 33]):
        l = [E() for _ in range(n)]
        for mk in (lambda: P.plist(l), lambda: P.plist(l[3:]).mcons(l[:3][::-1])):
            v = mk()
            bs = [None] + (list(range(-n - 2, n + 3)) if n < 9 else [0, 1, 5, n, -1, -5, -n, n + 1, -n - 1])
            for a in bs:
                for b in bs:
                    for st in (None, 1, 2, -1, -2, 3):
                        ctx.note('slice', n, a, b, st)
                        F.audit(ctx, v[a:b:st], l[a:b:st], rng)
            for i in range(0, n + 3):
                a, b = v.split(i)
                ctx.note('split', n, i)
                F.audit(ctx, a, l[:i], rng)
                F.audit(ctx, b, l[i:], rng)
            for i in range(n):
                ctx.note('remove', n, i)
                F.audit(ctx, v.remove(l[i]), l[:i] + l[i + 1:], rng)
            F.audit(ctx, v, l, rng)
            if n:
                w = v.rest
                ctx.check_that(w is v.rest, 'rest is not shared')
                x = E()
                ctx.check_that(v.cons(x).rest is v, 'cons does not share the tail')


def sweep_deque(ctx, F):
    """Every split of the content over the two ends x every slice/rotation/pop count, small sizes, every maxlen."""
    work = [(n, left, ml) for n in range(0, 7) for left in range(n + 1) for ml in (None, 0, 1, n - 1, n, n + 2) if ml is None or ml >= 0]
    for (n, left, ml), rng in ctx.items('all', work):
        l = [E() for _ in range(n)]
        v = P.pdeque(maxlen=ml)
        m = MD([], ml)
        for x in reversed(l[:left]):
            v, m = v.appendleft(x), m.to([x] + list(m), False)
        for x in l[left:]:
            v, m = v.append(x), m.to(list(m) + [x])
        F.audit(ctx, v, m, rng)
        k = len(m)
        ml_ = list(m)
        bs = [None] + list(range(-k - 2, k + 3))
        for a in bs:
            for b in bs:
                for st in (None, -1, 2):
                    ctx.note('slice', n, left, ml, a, b, st)
                    F.audit(ctx, v[a:b:st], m.to(ml_[a:b:st]), rng)
        for c in range(-2 * k - 2, 2 * k + 3):
            ctx.note('rotate', n, left, ml, c)
            d = deque(ml_)
            d.rotate(c)
            F.audit(ctx, v.rotate(c), m.to(d), rng)
        for c in range(-k - 2, k + 3):
            ctx.note('pop', n, left, ml, c)
            a = abs(c)
            lo, hi = m.to(ml_[a:]), m.to(ml_[:max(k - a, 0)])
            F.audit(ctx, v.pop(c), hi if c >= 0 else lo, rng)
            F.audit(ctx, v.popleft(c), lo if c >= 0 else hi, rng)
        F.audit(ctx, v.reverse(), m.to(ml_[::-1]), rng)
        for x in ml_:
            i = ml_.index(x)
            F.audit(ctx, v.remove(x), m.to(ml_[:i] + ml_[i + 1:]), rng)
        for xs in ([], [E()], [E() for _ in range(3)], [E() for _ in range(9)]):
            F.audit(ctx, v.extend(xs), m.to(ml_ + xs), rng)
            F.audit(ctx, v.extendleft(xs), m.to(xs[::-1] + ml_, False), rng)
        F.audit(ctx, v, m, rng)
