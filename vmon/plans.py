"""What each check runs: worker specifications per tier, minimum coverage, rules."""

PLANS = {}


NOTE = ('Held on every execution observed by the monitor (counts in the evidence file), not proved for all. Trusts CPython, its built-in '
        'containers as reference models and the monitor itself.')


def plan(cid, technique, rule, workers, min, level='exploration', assumptions=(), note=NOTE):
    PLANS[cid] = dict(technique=technique, rule=rule, workers=workers, min=min, level=level, assumptions=list(assumptions), note=note)


def specs(cid, tier, seed):
    out = []
    groups = {}
    for w in PLANS[cid]['workers'](tier):
        w = dict(w)
        w.setdefault('module', 'c' + cid[1:])
        w.setdefault('impl', 'c')
        w.setdefault('mode', '')
        w.setdefault('scale', 1.0)
        w.update(check=cid, seed=seed, tier=tier, worker=len(out))
        key = (w['module'], w['mode'], w['impl'], w.get('ext'), w.get('sizes'), w.get('group'))
        w['shard'] = groups.get(key, 0)
        groups[key] = w['shard'] + 1
        out.append(w)
    for w in out:
        w['nshards'] = groups[(w['module'], w['mode'], w['impl'], w.get('ext'), w.get('sizes'), w.get('group'))]
    return out


def n(k, **kw):
    return [kw] * k


HIST = ('A case is a seeded random history of operations over a pool of retained versions (or one deterministic sweep point); '
        'every result, exception kind and every new version is compared with the built-in model (element identity), and all retained '
        'versions are audited again at the end.  Non-trivial: at least one operation was executed and compared.  Distinct: by the hash of '
        'the sequence of operations with their arguments.')


def model_plan(cid, both, T=24):
    def workers(tier):
        s = 1.0 if tier == 'quick' else T
        ws = []
        for impl in (['c', 'py'] if both else ['c', 'py']):
            k = {('c', True): 3, ('py', True): 3, ('c', False): 4, ('py', False): 2}[impl, both]
            ws += n(k, module='cmodel', impl=impl, scale=s)
            ws += n(2 if both else 1, module='cmodel', impl=impl, mode='sweep')
            if cid == 'C02':
                ws += n(2, module='cmodel', impl=impl, mode='sweep', sizes='big', mem_gb=6)
        return ws
    plan(cid, 'runtime monitor: online comparison of random and enumerated histories with a built-in reference model', HIST, workers, {'evaluations': 1000, 'distinct_nontrivial': 800, 'audits': 10000, 'failing_ops': 50})


for c in ('C02', 'C04', 'C05', 'C06', 'C07', 'C08'):
    model_plan(c, c == 'C02')


def q(tier, k):
    return 1.0 if tier == 'quick' else 3.0 * k


plan('C01', 'runtime monitor: snapshots of every value handed out, compared again during and after hostile histories',
     'A case is a seeded history over a forest of versions of all types (derivations, kept evolvers, running iterators, views, mutated inputs and outputs, '
     'failing operations, garbage collection) or one size of the ancestor/descendant sweep.  Every retained version is compared with the snapshot taken when it '
     'was handed out.  Non-trivial: at least one later operation.  Distinct: hash of the operation sequence.',
     lambda t: n(4, impl='c', scale=q(t, 8)) + n(4, impl='py', scale=q(t, 8)) + n(2, impl='c', mode='sweep') + n(2, impl='py', mode='sweep'),
     {'evaluations': 1000, 'distinct_nontrivial': 900, 'rechecks': 50000, 'versions': 10000, 'failing_ops': 500, 'iterated': 1000})


plan('C03', 'runtime monitor: differential execution of one program on both implementations with step-wise comparison',
     'A case is one random program over the vector and evolver API (ordinary and hostile arguments, raising callbacks) executed on the C vector and on the Python vector in '
     'lockstep; results, element identities, exception kinds, hashes and mixed comparisons are compared at each step.  Non-trivial: at least one step compared.  Distinct: hash of the program.',
     lambda t: n(6, scale=q(t, 8)) + n(4, mode='sweep'),
     {'evaluations': 2000, 'distinct_nontrivial': 1500, 'compared': 50000, 'failing_ops': 5000, 'mixed': 2000})


plan('C09', 'runtime monitor: every evolver shadowed by a plain model while several are interleaved; all results re-audited',
     'A case interleaves updates, failed updates, reads and persistent() over up to five evolvers of shared originals (or is one size of the sweep over touched index pairs). '
     'Reads, len, is_dirty, persistent() contents and identity are compared with the shadow model; originals and earlier results are audited again.  Non-trivial: at least one update or persistent().  Distinct: hash of the operation sequence.',
     lambda t: n(3, impl='c', scale=q(t, 8)) + n(3, impl='py', scale=q(t, 8)) + n(2, impl='c', mode='sweep') + n(2, impl='py', mode='sweep'),
     {'evaluations': 3000, 'distinct_nontrivial': 2500, 'updates': 30000, 'persistent': 10000, 'audits': 20000, 'failing_ops': 500})


plan('C10', 'runtime monitor: all-pairs coherence of ==, !=, <, hash over values of equal content reached by different histories',
     'A case builds one content by 5-11 different routes (insertion orders, collisions, pre-sizes, evolvers, removed elements, equal-but-distinct elements, checked and Python variants) and compares all pairs in both '
     'orders before and after hashing, plus near-miss contents; or all pairs of a mixed pool of kinds.  Non-trivial: at least one pair of distinct objects compared.  Distinct: hash of kind, size and pool.',
     lambda t: n(4, impl='c', scale=q(t, 10)) + n(4, impl='py', scale=q(t, 10)),
     {'evaluations': 3000, 'pairs': 200000, 'equal_pairs': 1000, 'orderings': 1000, 'same_hash': 2000},
     assumptions=['keys and elements have reflexive equality (no NaN)'])


plan('C12', 'runtime monitor: every conversion matched node by node with an independent description of the input; inputs and results re-checked after scribbling over the other side',
     'A case is one random nested structure (built-in, persistent, mixed, shared sub-objects, opaque leaves) frozen or thawed in strict or non-strict mode, or one call of a mutant function. '
     'Every node of the result is compared (type, length, keys, identity of leaves), the input is compared with its snapshot, then all mutable containers of one side are overwritten and the other side compared again.  '
     'Non-trivial: a conversion was executed.  Distinct: hash of the input structure.',
     lambda t: n(4, impl='c', scale=q(t, 10)) + n(3, impl='py', scale=q(t, 10)),
     {'evaluations': 5000, 'distinct_nontrivial': 3000, 'nodes': 100000, 'roundtrips': 1000, 'alias_checks': 1000, 'mutants': 300})


plan('C23', 'runtime monitor: instances of generated immutable() types compared with the tuple of their members',
     'A case declares one immutable() type (member list in string, list or tuple form, frozen members, subclasses, validation) and drives a pool of instances through set() with random member subsets, unknown and frozen members; '
     'every instance is compared with the model tuple (identity of members, ==, hash, ordering, repr).  Non-trivial: at least one set().  Distinct: hash of declaration and calls.',
     lambda t: n(4, impl='c', scale=q(t, 10)) + n(2, impl='py', scale=q(t, 10)),
     {'evaluations': 1000, 'distinct_nontrivial': 800, 'instances': 10000, 'rejected': 2000, 'comparisons': 20000})


plan('C13', 'runtime monitor: transform() results matched with a persistent tree model (identity of untouched parts), command calls logged and matched with the paths',
     'A case is a chain of transform() and get_in() calls on one random nested structure of maps, vectors (both implementations), checked collections, records and classes with literal keys/indices, predicates of one and two arguments, '
     'regular expressions, missing paths, discard, constant, identity and wrapping commands.  The result is matched node by node, the logged command arguments with the matched locations, the original again afterwards.  '
     'Non-trivial: at least one call.  Distinct: hash of paths and commands.',
     lambda t: n(4, impl='c', scale=q(t, 10)) + n(4, impl='py', scale=q(t, 10)),
     {'evaluations': 8000, 'distinct_nontrivial': 5000, 'nodes': 200000, 'command_calls': 10000, 'unchanged': 1000, 'changed': 5000, 'failing_ops': 1000, 'get_in': 1000})


plan('C14', 'runtime monitor: independent auditor of the declaration applied to every instance that becomes visible; verdict model for every rejected or accepted input',
     'A case declares a random checked class (types in all surface forms, optional, enums, string names, nested checked types, several invariants, inheritance chains, multiple inheritance, diamonds, mixins) and drives it through constructor, create, '
     'fields, updates, evolvers, copy and (tampered) pickles with valid, wrongly typed and invariant-breaking elements; or it is a random history of a checked class compared with the unchecked model.  Every instance is audited, every rejection is '
     'compared with the independent verdict (kind, offending value, error codes).  Non-trivial: at least one route executed.  Distinct: hash of declaration and steps.',
     lambda t: n(4, impl='c', scale=q(t, 10)) + n(4, impl='py', scale=q(t, 10)),
     {'evaluations': 3000, 'distinct_nontrivial': 2500, 'audits': 30000, 'rejected.type': 2000, 'rejected.inv': 2000})


plan('C15', 'runtime monitor: independent auditor of the declaration applied to every record/class instance that becomes visible; factory calls logged; verdict model for every operation',
     'A case declares a random PRecord or PClass (typed, optional, nested, generated collection fields, invariants, initial values and callables, mandatory, non-idempotent factories, global invariants, inheritance, diamonds, mixins) and drives '
     'it through constructor, create, set, update, transform, remove, evolvers, setattr, copy and (tampered) pickles with valid and invalid values.  Every instance is audited against the declaration and the expected field values, every rejection '
     'is compared with the independent verdict, factory calls with the fields set.  Non-trivial: at least one construction.  Distinct: hash of declaration and steps.',
     lambda t: n(4, impl='c', scale=q(t, 10)) + n(4, impl='py', scale=q(t, 10)),
     {'evaluations': 3000, 'distinct_nontrivial': 2500, 'audits': 30000, 'failing_ops': 5000, 'rejected.invariant': 2000, 'factory_checks': 10000})


plan('C16', 'runtime monitor: serialize/create compared with an independent model serializer over generated nested declarations',
     'A case declares a random nested family of records, classes, checked and generated collections (default or custom serializers, several formats) and runs random values through serialize, create from plain data (several container disguises, some '
     'nested values already built), create(serialize(x)) and create with undeclared keys injected at random depths with and without ignore_extra.  Results are compared type by type at every level.  Non-trivial: at least one value.  Distinct: hash of declaration and values.',
     lambda t: n(4, impl='c', scale=q(t, 10)) + n(4, impl='py', scale=q(t, 10)),
     {'evaluations': 2000, 'distinct_nontrivial': 1500, 'serialized': 5000, 'roundtrips': 3000, 'created': 5000, 'extra_keys': 2000, 'extra_nested': 300})


plan('C11', 'runtime monitor: every restored value audited against the original (types, contents, hash, maxlen, checks, follow-up operations), factory calls counted, also across processes',
     'A case takes one random (nested) value of any type, or three values of a random declaration, through copy, deepcopy and a pickle protocol; the restored value is compared at every level, further operations are applied to both and invalid updates '
     'must be rejected.  150 values per worker are unpickled in a fresh interpreter with another hash seed and compared with independently rebuilt ones.  Non-trivial: at least one value restored.  Distinct: hash of the value and way.',
     lambda t: n(4, impl='c', scale=q(t, 10)) + n(4, impl='py', scale=q(t, 10)),
     {'evaluations': 3000, 'distinct_nontrivial': 2000, 'restored': 10000, 'followups': 5000, 'enforced': 1000, 'mutable_elements': 500, 'other_process': 600})


plan('C17', 'runtime monitor with fault injection: the k-th call of user code inside an operation raises, for every k; all live values, evolvers and the exception object are compared',
     'A case runs operations of one family on elements whose hash/eq/order/repr/reduce, iterators, mappings, predicates, commands, factories, invariants, serializers and initial callables are instrumented; each operation is run once cleanly and '
     'once per callback position (all positions up to 24, else sampled) with that callback raising one of five exception classes.  The very exception object must arrive, every live value must be as before (content, hash, lookups), evolvers must '
     'agree with the model of the completed updates in reads, persistent() and further updates.  Non-trivial: at least one operation.  Distinct: hash of operations and contents.',
     lambda t: n(4, impl='c', scale=q(t, 10)) + n(4, impl='py', scale=q(t, 10)),
     {'evaluations': 2000, 'distinct_nontrivial': 1500, 'injected': 50000, 'rechecks': 100000, 'repetitions': 5000, 'failing_ops': 1000})


plan('C18', 'AddressSanitizer + UndefinedBehaviorSanitizer over the C extension under re-entrant, fuzzed, garbage-collected and shutdown workloads; canaries on stored elements',
     'A case is one random world in which element code (eq, order, hash, repr, del, index, iteration, weakref callbacks) re-enters and drops the vectors, evolvers and iterators being operated on, one aimed re-entry, one fuzzed API surface, one forest of '
     'life times, one model or differential history, one boundary size or one interpreter shutdown; all with the extension compiled by gcc with ASan/UBSan (allocator and node cache variants).  Non-trivial: it ran to its end under the sanitizers with at least one '
     'operation.  Distinct: hash of the generated parameters.',
     lambda t: (n(2, ext='asan', mode='histories', scale=q(t, 8)) + n(1, ext='asan0', mode='histories', scale=q(t, 8)) + n(2, ext='asan', scale=q(t, 10)) + n(2, ext='asan0', scale=q(t, 10))
                + n(1, ext='asan', mode='gc', scale=q(t, 10)) + n(1, ext='asan0', mode='gc', scale=q(t, 10)) + n(1, ext='asan', mode='teardown', scale=q(t, 5)) + n(1, ext='asan0', mode='teardown', scale=q(t, 5))),
     {'evaluations': 3000, 'distinct_nontrivial': 2500, 'reentries': 5000, 'bombs': 1000, 'fuzz_calls': 5000, 'canaries': 50000, 'teardowns': 20},
     assumptions=['CPython itself is not instrumented; objects are seen by ASan because PYTHONMALLOC=malloc routes every allocation through the instrumented allocator'])


plan('C19', 'runtime monitor: exact reference counts of every tracked element after histories with injected faults; allocator counters over repeated operations; weak references to elements held by values only',
     'A case is one random history (any family, evolvers, both vectors in lockstep, operations with the k-th callback raising) after which every element created in it must be referenced by the monitor only; or one operation repeated while allocated '
     'blocks, malloc bytes in use and references to the shared empties are watched; or one kind of holder and size whose elements are held by nothing else.  Non-trivial: at least one operation.  Distinct: hash of the operations.',
     lambda t: (n(1, ext='asan0', scale=q(t, 4) * 0.4) + n(2, ext='opt', scale=q(t, 8)) + n(2, ext='cache0', scale=q(t, 8)) + n(2, impl='py', scale=q(t, 8)) + n(1, ext='opt', mode='repeat', scale=q(t, 6)) + n(2, ext='cache0', mode='repeat', scale=q(t, 6))
                + n(1, ext='cache0', mode='repeat', scale=q(t, 6), group='malloc', env={'PYTHONMALLOC': 'malloc'}) + n(1, impl='py', mode='repeat', scale=q(t, 6))),
     {'evaluations': 1500, 'distinct_nontrivial': 1200, 'tracked': 50000, 'repeated_ops': 1500, 'kept_alive': 100000, 'injected': 5000})


plan('C20', 'runtime monitor: forced collections against a shadow reachability graph with finaliser logs, canaries and weak references; references reported to the collector compared with references held',
     'A case is a random graph of mutable nodes, vectors (derived from each other), evolvers, iterators and other values from which roots are dropped while collections are forced at any step, one aimed pair of a live and a dead vector sharing nodes (size, index, derivation), '
     'one kind of dead cycle and size, or one history with a collection at every allocation.  Reachable nodes must be neither finalised, cleared nor changed; unshared dead cycles must disappear.  Non-trivial: at least one collection.  Distinct: hash of the parameters and the trace.',
     lambda t: n(4, scale=q(t, 2)) + n(2, ext='cache0', scale=q(t, 2)) + n(2, impl='py', scale=q(t, 2)),
     {'evaluations': 3000, 'distinct_nontrivial': 2500, 'collections': 10000, 'verified': 100000, 'cycles': 5000, 'finalised': 5000, 'reported_objects': 3000})


plan('C21', 'runtime monitor under controlled thread schedules: preemption at every bytecode/callback of an operation, random multi-preemption schedules, free-running threads; outcomes compared with those alone',
     'A case takes one random shared value (any type, fresh for every schedule) and operations on it.  single: for every bytecode of the library (and callback) inside operation A, a second real thread runs operation B there; many: 2-3 threads of several operations with random '
     'switches at bytecodes; free: 4 threads with a 1 us switch interval.  Outcomes, the value, its hash and later operations are compared with the outcome alone on an identically built value.  Non-trivial: at least one schedule.  Distinct: hash of value, operations and schedule.',
     lambda t: n(4, scale=q(t, 2)) + n(4, impl='py', scale=q(t, 2)),
     {'evaluations': 1500, 'distinct_nontrivial': 1300, 'schedules': 20000, 'switches': 5000, 'free_ops': 10000},
     assumptions=['CPython with the GIL: threads switch between bytecodes and inside callbacks only'])


plan('C22', 'runtime monitor: allocator trace (peak bytes per operation), bytecode counts, key-comparison counts, time ratio between sizes, identity of results',
     'A case is one value of one type, construction route and size (1500 to 1000000); every single-element operation at boundary and random positions is measured: peak bytes and bytecodes against a fixed budget far below one copy, comparisons per lookup against a constant, '
     'cost of consecutive insertions, identity of results that need no copy.  Non-trivial: at least one operation measured.  Distinct: type, route, size.',
     lambda t: n(4, ext='cache0') + n(4, impl='py'),
     {'evaluations': 300, 'distinct_nontrivial': 200, 'measured': 20000, 'lookups': 50000, 'identity': 500, 'timed': 20},
     assumptions=['map growth and the moment one side of a deque runs empty may cost time proportional to the size occasionally (amortised), as documented'])
