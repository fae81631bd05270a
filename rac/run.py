"""usage: run.py PROPERTY SECONDS SEED OUT.json [CANDIDATES.json]   |   run.py --replay REPLAY.json"""
import importlib, json, os, shutil, sys, tempfile, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('RAC_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
os.environ.setdefault('MPLBACKEND', 'Agg')

def main():
    from rac import base
    import logic.helper, logic.sim          # in the order in which the program itself imports them
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f: rep = json.load(f)
        if 'check' not in rep:
            print('this replay file names a failed proof obligation; there is no input to run'); print(json.dumps(rep, indent=1)); return 1
        scratch = tempfile.mkdtemp(prefix='rac_')
        os.environ['RAC_SCRATCH'] = scratch
        os.chdir(scratch)
        try:
            importlib.import_module('rac.p_' + rep['property'].lower())
            msg = base.run_case(base.CHECKS[rep['check']], rep['case'])
        finally:
            os.chdir('/'); shutil.rmtree(scratch, ignore_errors=True)
        print('property %s, check %s, case %s' % (rep['property'], rep['check'], json.dumps(rep['case'])))
        print('still fails: ' + msg if msg else 'the case passes now')
        return 1 if msg else 0
    prop, secs, seed, out = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), os.path.abspath(sys.argv[4])
    cands = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else []
    scratch = tempfile.mkdtemp(prefix='rac_')
    os.environ['RAC_SCRATCH'] = scratch
    os.chdir(scratch)
    try:
        mod = importlib.import_module('rac.p_' + prop.lower())
        ctx = base.Ctx(prop, secs, seed, scratch)
        if cands:
            if hasattr(mod, 'candidates'): mod.candidates(ctx, cands)
        else: mod.run(ctx)
        res = dict(property=prop, evaluations=ctx.evaluations, distinct=ctx.distinct, per_check=ctx.per, samples=ctx.samples,
                   violations=ctx.violations, rule=getattr(mod, 'RULE', ''), harness=getattr(ctx, 'last_harness', None))
    except Exception as e:
        import traceback
        res = dict(property=prop, error=traceback.format_exc()[-1500:], evaluations=0, distinct=0, per_check={}, samples=[], violations=[], rule='')
    finally:
        os.chdir('/'); shutil.rmtree(scratch, ignore_errors=True)
    with open(out, 'w') as f: json.dump(res, f, default=str)
    return 0
if __name__ == '__main__': sys.exit(main())
