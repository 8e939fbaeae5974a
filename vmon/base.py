"""Shared machinery of the monitors: case loop, counters, element/key/size generators."""
import ast, glob, hashlib, os, random, re, time
from collections import Counter, deque


class Violation(Exception):
    def __init__(self, msg, detail=None):
        Exception.__init__(self, msg)
        self.detail = detail


def brief(x, n=300):
    try:
        r = repr(x)
    except Exception as e:
        r = '<unreprable %s: %s>' % (type(x).__name__, type(e).__name__)
    return r if len(r) <= n else r[:n] + '...(%d chars)' % len(r)


class Ctx:
    def __init__(self, spec):
        self.spec = spec
        self.seed, self.tier, self.check = spec['seed'], spec['tier'], spec['check']
        self.worker, self.impl, self.mode = spec['worker'], spec['impl'], spec.get('mode', '')
        self.shard, self.nshards = spec.get('shard', 0), spec.get('nshards', 1)
        self.thorough = self.tier == 'thorough'
        self.scale = spec.get('scale', 1.0)
        self.counters, self.sigs, self.samples, self.sets, self.known = Counter(), set(), [], {}, []
        self.case_id, self.step = None, None
        self.log = deque(maxlen=60)
        self.only = spec.get('only_case')
        self._fd = os.open(os.path.join(spec['dir'], 'beat'), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        self._n = 0
        self.t0 = time.monotonic()
        self.soft_cap = spec.get('soft_cap', 240 if not self.thorough else 1500)
        self.consts = mine(spec['repo'])

    # -- progress ---------------------------------------------------------
    def beat(self, what=''):
        self._n += 1
        os.pwrite(self._fd, ('%s %d %s' % (self.case_id, self._n, what)).ljust(160)[:160].encode(), 0)

    def rng(self, *key):
        return random.Random('|'.join(map(str, (self.seed, self.check, self.worker, self.mode) + key)))

    def cases(self, name, n, scale=True):
        """Yield (index, rng) for n cases; deterministic per seed; beats; stops at the soft cap."""
        if scale:
            n = max(1, int(n * self.scale))
        for i in range(n):
            cid = '%s:%d' % (name, i)
            if self.only is not None and self.only != cid:
                continue
            if time.monotonic() - self.t0 > self.soft_cap:
                self.counters['soft_cap_hits'] += 1
                return
            self.begin(cid)
            yield i, self.rng(cid)
            self.end()

    def items(self, name, seq):
        """Like cases() for an explicit enumeration, sharded over the workers."""
        for i, x in enumerate(seq):
            if i % self.nshards != self.shard:
                continue
            cid = '%s:%d' % (name, i)
            if self.only is not None and self.only != cid:
                continue
            if time.monotonic() - self.t0 > self.soft_cap:
                self.counters['soft_cap_hits'] += 1
                return
            self.begin(cid)
            yield x, self.rng(cid)
            self.end()

    def begin(self, cid):
        self.case_id = cid
        self.log.clear()
        self._sig = hashlib.blake2b(digest_size=6)
        self._nontrivial = 0
        self.beat()

    def end(self):
        self.counters['cases'] += 1
        if self._nontrivial:
            self.sigs.add(self._sig.hexdigest())
            if len(self.samples) < 4 and (self._nontrivial > 3 or not self.samples):
                self.samples.append({'case': self.case_id, 'impl': self.impl, 'trace': list(self.log)[-12:]})

    def note(self, op, *what, nontrivial=1):
        """Record one observed step of the case."""
        self.counters['op.' + op] += 1
        self.counters['steps'] += 1
        self._nontrivial += nontrivial
        s = op + '(' + ', '.join(brief(w, 60) for w in what) + ')'
        self.step = s
        self.log.append(s)
        self._sig.update(re.sub(r'0x[0-9a-f]+|E\d+', '', s).encode('utf-8', 'replace'))
        if self.counters['steps'] & 63 == 0:
            self.beat()

    def seen(self, setname, x):
        self.sets.setdefault(setname, set()).add(x)

    def fail(self, msg, **detail):
        lines = ['%s = %s' % (k, brief(v, 600)) for k, v in detail.items()]
        lines.append('last steps:')
        lines.extend('  ' + s for s in self.log)
        raise Violation(msg, '\n'.join(lines))

    def check_that(self, cond, msg, **detail):
        self.counters['checks'] += 1
        if not cond:
            self.fail(msg, **detail)

    def finding(self, key, detail):
        self.known.append(dict(key=key, detail=detail))


# ---------------------------------------------------------------------- directed constants
def mine(repo):
    """Numbers and strings occurring in the sources under test: used as sizes, indices, values and keys (a workload
    dictionary in the fuzzing sense; the oracles never look at the sources)."""
    ints, strs = set(), set()
    for f in sorted(glob.glob(os.path.join(repo, 'pyrsistent', '*.py'))):
        try:
            with open(f, encoding='utf-8', errors='replace') as fh:
                tree = ast.parse(fh.read())
        except (SyntaxError, OSError, ValueError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 24:
                    strs.add(v)
            elif isinstance(node, ast.BinOp):
                try:
                    v = eval(compile(ast.Expression(node), '', 'eval'), {'__builtins__': {}}, {})
                    if isinstance(v, int) and abs(v) < 2**40:
                        ints.add(v)
                except Exception:
                    pass
    for f in sorted(glob.glob(os.path.join(repo, '*.c'))):
        try:
            with open(f, encoding='utf-8', errors='replace') as fh:
                src = fh.read()
        except OSError:
            continue
        for m in re.finditer(r'\b(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*\b', src):
            t = m.group(1)
            try:
                ints.add(int(t, 16) if t[:2].lower() == '0x' else int(t))
            except ValueError:
                pass
    ints = sorted(i for i in ints if abs(i) < 2**62)
    return dict(ints=ints, strs=sorted(strs),
                sizes=sorted({n + d for n in ints if 0 < n <= 2500 for d in (-1, 0, 1)}),
                big=sorted({n + d for n in ints if 2500 < n <= 150000 for d in (-1, 0, 1)}))


BOUNDARY = [0, 1, 2, 3, 4, 7, 8, 31, 32, 33, 34, 63, 64, 65, 66, 95, 96, 97, 98, 127, 128, 129, 160, 192,
            991, 992, 993, 1023, 1024, 1025, 1026, 1055, 1056, 1057, 1058, 1087, 1088, 1089, 1120,
            2047, 2048, 2049, 2080, 2081]
BIG = [32735, 32736, 32737, 32767, 32768, 32769, 32799, 32800, 32801, 32831, 32832, 32833, 33791, 33792, 33793, 33823,
       33824, 33825, 65535, 65536, 65537, 65568, 65569]
HUGE = [1048575, 1048576, 1048577, 1048607, 1048608, 1048609, 1048640, 1048641]


def size(rng, ctx, small=0.75, cap=None):
    r = rng.random()
    if r < small:
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, 13, 20, 30, 31, 32, 33, 34, 40, 63, 64, 65, 66, 70])
    elif r < small + 0.12:
        n = rng.choice(BOUNDARY)
    elif r < small + 0.18:
        n = rng.choice(ctx.consts['sizes'] or [3])
    else:
        n = rng.randrange(0, 300)
    if cap is not None:
        n = min(n, cap)
    return n


def index(rng, n, ctx=None):
    """An interesting index for a sequence of length n (in or slightly out of range)."""
    r = rng.random()
    if r < 0.3:
        return rng.choice([0, 1, n - 1, n - 2, n, n + 1, -1, -2, -n, -n - 1, -n + 1])
    if r < 0.5:
        tail = ((n - 1) >> 5) << 5 if n else 0
        return rng.choice([tail, tail - 1, tail + 1, tail - 32, tail - 33, 31, 32, 33, 63, 64, -32, -33, 1023, 1024, 1055, 1056]) if n > 31 else rng.randrange(-n - 1, n + 2)
    if r < 0.55 and ctx is not None and ctx.consts['ints']:
        return rng.choice(ctx.consts['ints']) % (n + 1)
    if n == 0:
        return rng.choice([0, -1, 1])
    i = rng.randrange(n)
    return i if rng.random() < 0.7 else i - n


def bound(rng, n):
    r = rng.random()
    if r < 0.01:
        return rng.choice([2**63 - 1, -2**63, 2**63, 10**30, -10**30])
    if r < 0.25:
        return None
    if r < 0.5:
        return rng.choice([0, 1, n, n - 1, n + 1, -1, -n, -n - 1, 32, 33, -32, n + 40])
    return rng.randrange(-n - 2, n + 3)


def a_slice(rng, n):
    step = rng.choice([None, None, None, 1, 2, -1, -1, 3, -2, 7, -33, 32])
    return slice(bound(rng, n), bound(rng, n), step)


# ---------------------------------------------------------------------- elements and keys
class E:
    """Element with identity semantics and a printable unique id."""
    __slots__ = ('n', '__weakref__')
    count = 0

    def __init__(self):
        E.count += 1
        self.n = E.count

    def __repr__(self):
        return 'E%d' % self.n


class K:
    """Key with chosen hash; equal iff same ident.  Distinct objects with the same ident are equal keys."""
    __slots__ = ('ident', 'h', '__weakref__')

    def __init__(self, ident, h):
        self.ident, self.h = ident, h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        if isinstance(other, K):
            return self.ident == other.ident
        return NotImplemented

    def __repr__(self):
        return 'K(%r,%r)' % (self.ident, self.h)

    def __reduce__(self):
        return K, (self.ident, self.h)


class Anon(K):
    """Key that looks like any other key."""
    __slots__ = ()

    def __repr__(self):
        return 'key'

    def __reduce__(self):
        return Anon, (self.ident, self.h)


class O(K):
    """Orderable key."""
    __slots__ = ()

    def __lt__(self, other):
        return self.ident < other.ident


HASHES = [0, 1, -1, -2, 2, 8, 16, 32, 64, 2**61 - 1, -2**61, 2**62, 2**31, -2**31, 1 << 20, 12345, 7]


# what a map might confuse with its own attributes
INTERNAL = ['_cached_hash', '_cached_hash', '_size', '_buckets', '_map', '__weakref__', '__class__', '__dict__', '__hash__', 'keys', 'items', 'get', 'set']


def key_universe(rng, ctx, n):
    """n mutually distinct keys of mixed kinds with an adversarial hash distribution."""
    kind = rng.choice(['collide', 'mod', 'ints', 'strs', 'mixed', 'mixed', 'mixed', 'twins', 'neg'])
    ctx.seen('key_populations', kind)
    keys = []
    hs = rng.sample(HASHES, rng.choice([1, 1, 2, 3]))
    mod = rng.choice([1, 2, 4, 8, 16, 32, 64, 128])
    for i in range(n):
        k = kind if kind != 'mixed' else rng.choice(['collide', 'mod', 'ints', 'strs', 'obj', 'tup', 'falsy', 'neg', 'fst'])
        if k == 'collide':
            keys.append((K if i % 3 else Anon)('c%d' % i, rng.choice(hs)))
        elif k == 'mod':
            keys.append(K('m%d' % i, rng.choice(hs) + mod * rng.randrange(0, 1000)))
        elif k == 'ints':
            keys.append(i * rng.choice([1, 1, mod]) if kind == 'ints' else 10 ** 6 + i)
        elif k == 'neg':
            keys.append(-i - 2)
        elif k == 'strs':
            keys.append(rng.choice(INTERNAL) if rng.random() < 0.05 else rng.choice(ctx.consts['strs']) + '' if rng.random() < 0.15 and ctx.consts['strs'] else 's%d' % i)
        elif k == 'obj':
            keys.append(E())
        elif k == 'tup':
            keys.append((i, 'x'))
        elif k == 'fst':
            keys.append(frozenset([i, 'f']))
        elif k == 'twins':
            keys.append(K('t%d' % i, i // 2 * mod))
        else:
            keys.append(rng.choice([None, 0, '', (), frozenset(), False, 0.0, b'']))
    out, seen = [], {}
    for k in keys:
        if k not in seen:
            seen[k] = 1
            out.append(k)
    return out


def twin(rng, k):
    """An equal but distinct key object where one exists (what a caller could legitimately pass for the same key)."""
    if isinstance(k, K):
        return type(k)(k.ident, k.h)
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, int) and abs(k) < 2**50:
        return float(k)
    if isinstance(k, str) and k:
        return ''.join([k[:1], k[1:]])
    if isinstance(k, tuple) and k:
        return tuple(list(k))
    return k


def value(rng, ctx=None):
    r = rng.random()
    if r < 0.35:
        return E()
    if r < 0.75:
        return rng.choice([None, 0, 1, 2, 3, True, False, '', 'a', (), 1.5, -1, 0.0, frozenset(), b''])
    if r < 0.8 and ctx is not None and (ctx.consts['strs'] or ctx.consts['ints']):
        return rng.choice(ctx.consts['strs'] + ctx.consts['ints'])
    if r < 0.9:
        return rng.randrange(0, 8)
    return [rng.choice([1, 2])] if r < 0.95 else {'k': rng.randrange(3)}


def hvalue(rng, ctx=None):
    """A hashable value."""
    while True:
        v = value(rng, ctx)
        if not isinstance(v, (list, dict)):
            return v


def values(rng, n, ctx=None):
    if n <= 200:
        return [value(rng, ctx) for _ in range(n)]
    base = [value(rng, ctx) for _ in range(40)]
    return [base[rng.randrange(40)] if rng.random() < 0.3 else E() for _ in range(n)]


def same_seq(a, b):
    """Identity comparison of two sequences of elements."""
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def persistent_of(rng, items, P, unordered=False):
    """The items in a persistent disguise; unordered: the consumer does not care about their order."""
    k = rng.randrange(9 if unordered else 6)
    if k == 0:
        return P.pvector(items), 'pvector'
    if k == 1:
        return P.plist(items), 'plist'
    if k == 2:
        return P.plist(items[::-1]).reverse(), 'reversed plist'
    if k == 3:
        h = rng.randrange(len(items) + 1)
        return P.pdeque(items[h:]).extendleft(items[:h][::-1]), 'pdeque'
    if k == 4:
        return P.pdeque([0] * rng.randrange(3) + items, maxlen=len(items)), 'bounded pdeque'
    if k == 5:
        if unordered:
            return P.pmap({i: x for i, x in enumerate(items)}).values(), 'map values'
        return P.pvector([0, 1] + items)[2:], 'sliced pvector'
    if k == 6:
        return P.pbag(items), 'pbag'
    distinct, seen = [], set()
    for x in items:
        if x in seen:
            return P.pbag(items[:1]).update(items[1:]), 'pbag'
        seen.add(x)
        distinct.append(x)
    return (P.pset(distinct), 'pset') if k == 7 else (P.pmap({x: None for x in distinct}).keys(), 'keys')


def iterable_of(rng, items, vec=None, P=None, unordered=False):
    """The items in one of many iterable disguises."""
    if P is not None and rng.random() < 0.35:
        return persistent_of(rng, list(items), P, unordered)
    if rng.random() < 0.12:
        return dict_of(rng, list(items))
    k = rng.randrange(8 if vec is None else 10)
    if k == 0:
        return list(items), 'list'
    if k == 1:
        return tuple(items), 'tuple'
    if k == 2:
        return (x for x in list(items)), 'generator'
    if k == 3:
        return iter(list(items)), 'iterator'
    if k == 4:
        return deque(items), 'deque'
    if k == 5:
        return map(lambda x: x, list(items)), 'map'
    if k == 6:
        return GetItemSeq(items), 'getitem-seq'
    if k == 7:
        return LyingLen(items), 'lying-length-hint'
    return vec(items), 'vector'


def dict_of(rng, items):
    """The items as the keys (if they are distinct) or the values of a dictionary."""
    k = rng.randrange(4)
    try:
        d = {x: rng.choice([0, 1, 3, -2, None, (1, 2), 'x']) for x in items}
    except TypeError:
        k = 3
    if k == 3 or len(d) < len(items):
        return dict(enumerate(items)).values(), 'dict values'
    return (d, 'dict') if k else (d.keys(), 'dict keys')


class GetItemSeq:
    def __init__(self, items):
        self.items = list(items)

    def __getitem__(self, i):
        return self.items[i]


class LyingLen:
    def __init__(self, items):
        self.items = list(items)

    def __iter__(self):
        return LyingIter(self.items)


class LyingIter:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __length_hint__(self):
        return 3


def attempt(f, *a):
    """Run f; -> ('ok', result) or ('exc', exception)"""
    try:
        return 'ok', f(*a)
    except RecursionError:
        raise
    except Exception as e:
        return 'exc', e


def exc_kind(e):
    """The builtin exception category a caller would catch."""
    for t in (KeyError, IndexError, AttributeError, TypeError, ValueError, OverflowError, StopIteration, ZeroDivisionError):
        if isinstance(e, t):
            return t.__name__
    return type(e).__name__
