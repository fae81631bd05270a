"""Runtime contract checking of the real code: inputs are generated, the real functions of /repo run on them, and the
property is evaluated by an independent oracle.  Every check is a function  check(case) -> None | message  of a
JSON-able case, so that a failing case can be replayed exactly."""
import contextlib, io, json, math, os, random, shutil, sys, tempfile, time, traceback

CHECKS = {}
def check(fn):
    CHECKS[fn.__name__] = fn
    return fn

class Fail(Exception): pass
def need(cond, msg):
    if not cond: raise Fail(msg)
def close(x, y, rel=1e-9, ab=1e-12):
    if x == y: return True
    try: return abs(x - y) <= ab + rel * max(abs(x), abs(y))
    except TypeError: return False

class Ctx:
    def __init__(self, prop, seconds, seed, scratch):
        self.prop, self.seconds, self.rng, self.scratch = prop, seconds, random.Random('%s/%s' % (prop, seed)), scratch
        self.t0 = time.time()
        self.evaluations, self.distinct, self.seen, self.samples, self.violations, self.per = 0, 0, set(), [], [], {}
        self.max_violations = 3
    def left(self, share=1.0): return self.t0 + self.seconds * share - time.time()
    def more(self, share=1.0): return self.left(share) > 0 and len(self.violations) < self.max_violations
    def run(self, name, case):
        fn = CHECKS[name]
        self.evaluations += 1
        key = json.dumps([name, case], sort_keys=True, default=str)
        if key not in self.seen:
            self.seen.add(key); self.distinct += 1
            self.per[name] = self.per.get(name, 0) + 1
            if len(self.samples) < 4 and self.per[name] == 1: self.samples.append({'check': name, 'case': case})
        msg = run_case(fn, case)
        if msg is not None:
            if msg.startswith('HARNESS'):
                print(msg, file=sys.stderr)
                self.per['harness errors'] = self.per.get('harness errors', 0) + 1
                self.last_harness = msg
                return None
            self.violations.append({'check': name, 'case': case, 'what': msg})
        return msg

def run_case(fn, case):
    cwd = os.getcwd()
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out): r = fn(json.loads(json.dumps(case)))
        return r
    except Fail as e: return str(e)
    except Exception as e:
        # an exception out of the real code is a violation; one out of the oracle is not
        tb = traceback.extract_tb(e.__traceback__)
        files = [f.filename for f in tb]
        repo = os.environ.get('RAC_REPO', '/repo')
        last_repo = max([i for i, f in enumerate(files) if f.startswith(repo + '/')], default=-1)
        last_rac = max([i for i, f in enumerate(files) if '/rac/' in f], default=-1)
        txt = '%s: %s [%s]' % (type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))
        if last_repo > last_rac: return 'the real code raised ' + txt
        return 'HARNESS ' + txt
    finally: os.chdir(cwd)

def logu(rng, lo, hi): return math.exp(rng.uniform(math.log(lo), math.log(hi)))
def real(rng, zero=0.12):
    """a non-negative real from many magnitudes, with special values"""
    r = rng.random()
    if r < zero: return 0.0
    if r < zero + .08: return 1.0
    if r < zero + .2: return rng.choice([0.5, 0.25, 0.1, 0.01, 1e-3, 2.0, 1e-6, 1e-9, 0.3, 3.0])
    return logu(rng, 1e-9, 10)
