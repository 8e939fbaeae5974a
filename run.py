#!/opt/venv/bin/python
"""Driver:  run.py C05            decide one property (VERIF_TIER, VERIF_SEED)
           run.py --replay FILE  run the failing case of a replay file again

Builds the C extension from /repo's working tree into a scratch directory, runs the monitored workload in
worker processes, collects what the monitors observed, writes evidence/<id>.json.
Exit 0: held on everything observed; 1: VIOLATION line; 2: inconclusive (build failed, too little observed).
"""
import json, os, resource, shutil, signal, subprocess, sys, tempfile, time, importlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from vmon import plans  # noqa: E402

HANG_CPU_S = 90          # CPU seconds without any progress of the workload = it hangs
NPROC = 8


def build(kind, scratch):
    """kind: opt | asan | asan0 (node cache off).  Returns the directory holding pvectorc*.so"""
    import sysconfig
    out = os.path.join(scratch, 'ext-' + kind)
    os.makedirs(out)
    inc = subprocess.check_output([PY, '-c', 'import sysconfig;print(sysconfig.get_paths()["include"]);'
                                   'print(sysconfig.get_config_var("EXT_SUFFIX"))'], text=True).split()
    base = ['gcc', '-shared', '-fPIC', '-g', '-fno-strict-overflow', '-fwrapv', '-I' + inc[0], '-I' + REPO]
    srcs = [os.path.join(REPO, f) for f in sorted(os.listdir(REPO)) if f.endswith('.c')]
    flags = {'opt': ['-O2', '-DNDEBUG'],
             'asan': ['-O1', '-DNDEBUG', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=alignment',
                      '-fno-sanitize-recover=all'],
             'asan0': ['-O1', '-DNDEBUG', '-DNODE_CACHE_MAX_SIZE=0', '-fno-omit-frame-pointer',
                       '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all'],
             'cache0': ['-O1', '-DNDEBUG', '-DNODE_CACHE_MAX_SIZE=0'],
             }[kind]
    cmd = base + flags + srcs + ['-o', os.path.join(out, 'pvectorc' + inc[1])]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print('BUILD FAILED', ' '.join(cmd)); print(r.stdout[-4000:])
        sys.exit(2)
    return out


def cpu_seconds(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            parts = f.read().rsplit(')', 1)[1].split()
        return (int(parts[11]) + int(parts[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


class Worker:
    def __init__(self, spec, scratch, extdir, only_case=None):
        self.spec = spec
        self.dir = os.path.join(scratch, 'w%d' % spec['worker'])
        os.makedirs(self.dir)
        self.specfile = os.path.join(self.dir, 'spec.json')
        self.outfile = os.path.join(self.dir, 'out.json')
        self.beat = os.path.join(self.dir, 'beat')
        if only_case is not None:
            spec = dict(spec, only_case=only_case)
        spec = dict(spec, dir=self.dir, repo=REPO)
        with open(self.specfile, 'w') as f:
            json.dump(spec, f)
        env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'PYRSISTENT', 'ASAN', 'UBSAN', 'LD_'))}
        env['PYTHONPATH'] = os.pathsep.join([extdir, REPO, HERE])
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
        env['PYTHONHASHSEED'] = str((spec['seed'] * 1000003 + spec['worker'] * 101) % 4294967296)
        env['PYTHONNOUSERSITE'] = '1'
        env['PYTHONFAULTHANDLER'] = '1'
        env['TMPDIR'] = self.dir
        env['VERIF_EXTDIR'] = extdir
        if spec['impl'] == 'py':
            env['PYRSISTENT_NO_C_EXTENSION'] = '1'
        self.san = spec.get('ext', 'opt').startswith('asan')
        if self.san:
            libs = [subprocess.check_output(['gcc', '-print-file-name=' + n], text=True).strip() for n in ('libasan.so', 'libubsan.so')]
            env['LD_PRELOAD'] = ' '.join(libs)
            env['PYTHONMALLOC'] = 'malloc'
            env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:'
                                   'handle_segv=1:quarantine_size_mb=64:detect_stack_use_after_return=0:'
                                   'log_path=' + os.path.join(self.dir, 'asan'))
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77:log_path=' + os.path.join(self.dir, 'asan')
        env.update(spec.get('env', {}))
        self.err = open(os.path.join(self.dir, 'stderr'), 'wb')

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if not self.san:
                lim = int(spec.get('mem_gb', 3) * 2**30)
                resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        cmd = [PY, '-X', 'faulthandler', os.path.join(HERE, 'vmon', 'worker.py'), self.specfile, self.outfile]
        self.p = subprocess.Popen(cmd, env=env, cwd=self.dir, stdout=self.err, stderr=self.err, preexec_fn=pre)
        self.t0 = time.monotonic()
        self.lastbeat = None
        self.cpu_at_beat = 0.0
        self.killed = None

    def readbeat(self):
        try:
            with open(self.beat) as f:
                return f.read(200)
        except OSError:
            return ''

    def kill(self, why):
        self.killed = why
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def poll(self, wall_cap):
        rc = self.p.poll()
        if rc is not None:
            return rc
        b = self.readbeat()
        c = cpu_seconds(self.p.pid)
        if b != self.lastbeat:
            self.lastbeat, self.cpu_at_beat = b, c
        elif c - self.cpu_at_beat > HANG_CPU_S:
            self.kill('hang')
            return self.p.returncode
        if time.monotonic() - self.t0 > wall_cap:
            self.kill('wall')
            return self.p.returncode
        return None

    def tail(self):
        txt = ''
        for name in sorted(os.listdir(self.dir)):
            if name == 'stderr' or name.startswith('asan'):
                with open(os.path.join(self.dir, name), errors='replace') as f:
                    t = f.read()
                txt += t[:6000] + ('\n...\n' + t[-2000:] if len(t) > 8000 else '')
        return txt

    def result(self):
        """-> (kind, data): ok | violation | inconclusive"""
        try:
            os.killpg(self.p.pid, signal.SIGKILL)   # anything it left behind
        except OSError:
            pass
        out = None
        try:
            with open(self.outfile) as f:
                out = json.load(f)
        except (OSError, ValueError):
            pass
        beat = self.readbeat()
        case = beat.strip().split(' ')[0] if beat.strip() else None
        rc = self.p.returncode
        if out is not None and out.get('violation'):
            return 'violation', out
        if self.killed == 'hang':
            return 'violation', dict(violation=dict(message='workload hangs: no progress in %d s of CPU time' % HANG_CPU_S, case=case, detail=beat), counters={})
        if self.killed == 'wall':
            return 'inconclusive', dict(message='wall clock cap reached', case=case)
        sanlog = [n for n in os.listdir(self.dir) if n.startswith('asan')]
        if sanlog:
            return 'violation', dict(violation=dict(message='sanitizer report', case=case, detail=self.tail()), counters={})
        if rc and rc < 0:
            return 'violation', dict(violation=dict(message='interpreter killed by signal %d' % -rc, case=case, detail=self.tail()), counters={})
        if rc or out is None:
            return 'inconclusive', dict(message='worker exit status %s' % rc, case=case, detail=self.tail())
        return 'ok', out


def run_specs(specs, scratch, exts, wall_cap, only_case=None):
    pending = list(specs)
    running, done = [], []
    stop = False
    while pending or running:
        while pending and len(running) < NPROC and not stop:
            s = pending.pop(0)
            running.append(Worker(s, scratch, exts[s.get('ext', 'opt')], only_case))
        if stop:
            pending = []
        time.sleep(0.02)
        for w in list(running):
            if w.poll(wall_cap) is not None:
                running.remove(w)
                kind, data = w.result()
                done.append((w, kind, data))
                if kind == 'violation':
                    stop = True
                    for o in running:
                        o.kill('stopped')
                    running = []
                    break
    return done


def load_known():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return json.load(f)
    except OSError:
        return {'known': [], 'fixed': []}


def main(argv):
    replay = None
    if argv[0] == '--replay':
        with open(argv[1]) as f:
            replay = json.load(f)
        cid = replay['property']
    else:
        cid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    plan = plans.PLANS[cid]
    t0 = time.monotonic()
    root = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > 2**28 else None
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % cid, dir=root)
    try:
        return decide(cid, plan, tier, seed, scratch, t0, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(cid, plan, tier, seed, scratch, t0, replay):
    if replay:
        tier, seed = replay['tier'], replay['seed']
        specs = [replay['spec']]
    else:
        specs = plans.specs(cid, tier, seed)
    exts = {k: build(k, scratch) for k in sorted({s.get('ext', 'opt') for s in specs})}
    wall_cap = 800 if tier == 'quick' else 3 * 3600
    done = run_specs(specs, scratch, exts, wall_cap, only_case=replay and replay.get('case'))
    viol = [(w, d) for w, k, d in done if k == 'violation']
    inc = [(w, d) for w, k, d in done if k == 'inconclusive' and w.killed != 'stopped']
    oks = [d for _, k, d in done if k == 'ok']
    from collections import Counter
    counters, sigs, samples, sets, known = Counter(), set(), [], {}, []
    for d in oks + [d for _, d in viol if d.get('counters')]:
        counters.update(d['counters'])
        sigs.update(d.get('sigs', ()))
        samples.extend(d.get('samples', ()))
        for k, v in d.get('sets', {}).items():
            sets.setdefault(k, set()).update(map(str, v))
        known.extend(d.get('known', ()))
    wall = time.monotonic() - t0
    coverage = dict(
        evaluations=int(counters.pop('cases', 0)), distinct_nontrivial=len(sigs), rule=plan['rule'],
        samples=samples[:6] or ['(none)'],
        observed={k: int(v) for k, v in sorted(counters.items())},
        distinct={k: len(v) for k, v in sorted(sets.items())},
        distinct_members={k: sorted(v)[:80] for k, v in sorted(sets.items()) if len(v) <= 400},
        workers=[dict(impl=w.spec['impl'], ext=w.spec.get('ext', 'opt'), mode=w.spec.get('mode', ''), outcome=k,
                      cases=d.get('counters', {}).get('cases', 0)) for w, k, d in done])
    kf = load_known()
    listed = {k['key']: k for k in kf.get('known', []) if k['property'] == cid}
    lines, unlisted = [], []
    seen = {}
    for k in known:
        seen.setdefault(k['key'], k)
    for key, k in sorted(seen.items()):
        if key in listed:
            lines.append('KNOWN-FINDING: property=%s %s' % (cid, listed[key]['what']))
        else:
            unlisted.append(k)
    coverage['known_findings_observed'] = sorted(set(seen) & set(listed))
    code = 0
    if viol or unlisted:
        code = 1
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        if viol:
            w, d = viol[0]
            v = d['violation']
            data = dict(property=cid, tier=tier, seed=seed, spec=w.spec, case=v.get('case'), violation=v)
        else:
            data = dict(property=cid, tier=tier, seed=seed, spec=specs[0], case=None, violation=unlisted[0])
            v = dict(message=unlisted[0].get('detail', unlisted[0]['key']))
        path = os.path.join(rdir, '%s-seed%d-%s.json' % (cid, seed, tier))
        with open(path, 'w') as f:
            json.dump(data, f, indent=1, default=repr)
        print('--- %s' % v.get('message'))
        if v.get('detail'):
            print(str(v['detail'])[:6000])
        print('VIOLATION property=%s replay=%s' % (cid, path))
    else:
        for w, d in inc:
            print('INCONCLUSIVE worker %s: %s case=%s\n%s' % (w.spec, d['message'], d.get('case'), (d.get('detail') or '')[:3000]))
            code = 2
        need = plan.get('min', {})
        allc = dict(coverage['observed'], evaluations=coverage['evaluations'], distinct_nontrivial=coverage['distinct_nontrivial'])
        for k, n in need.items():
            if allc.get(k, 0) < n and not replay:
                print('INCONCLUSIVE: monitor observed too little: %s = %s < %s' % (k, allc.get(k, 0), n))
                code = 2
    for ln in lines:
        print(ln)
    ev = dict(property=cid, tier=tier, seed=seed, level=plan.get('level', 'exploration'), coverage=coverage,
              assumptions=plan.get('assumptions', []), wall_s=round(wall, 2), violations=1 if code == 1 else 0)
    if not replay:
        edir = os.path.join(HERE, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, cid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s tier=%s seed=%d: %s; %d cases, %d distinct non-trivial, %.1f s' % (
        cid, tier, seed, {0: 'held on everything observed', 1: 'VIOLATED', 2: 'inconclusive'}[code],
        coverage['evaluations'], coverage['distinct_nontrivial'], wall))
    return code


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
