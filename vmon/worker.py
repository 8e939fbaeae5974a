"""Worker process: runs the cases of one check against the code under test and reports what was observed."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(3000)

from vmon.base import Ctx, Violation


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    import pyrsistent
    assert os.path.realpath(pyrsistent.__file__).startswith(os.path.realpath(spec['repo'])), pyrsistent.__file__
    if spec['impl'] != 'py':
        import pvectorc
        assert os.path.realpath(pvectorc.__file__).startswith(os.path.realpath(os.environ['VERIF_EXTDIR'])), pvectorc.__file__
        assert type(pyrsistent.pvector()) is type(pvectorc.pvector())
    else:
        assert 'pvectorc' not in sys.modules
    mod = importlib.import_module('vmon.' + spec['module'])
    ctx = Ctx(spec)
    out = {}
    try:
        mod.run(ctx)
    except Violation as e:
        out['violation'] = dict(message=str(e), case=ctx.case_id, detail=e.detail, step=ctx.step)
    except BaseException as e:
        out['violation'] = dict(message='unexpected %s: %s' % (type(e).__name__, str(e)[:500]), case=ctx.case_id,
                                detail=traceback.format_exc()[-5000:], step=ctx.step)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    out.update(counters=dict(ctx.counters), sigs=sorted(ctx.sigs), samples=ctx.samples[:4],
               sets={k: sorted(map(str, v)) for k, v in ctx.sets.items()}, known=ctx.known)
    tmp = sys.argv[2] + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(out, f, default=repr)
    os.rename(tmp, sys.argv[2])
    sys.stdout.flush()
    os._exit(0)


main()
