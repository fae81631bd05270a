from rac.base import *
from rac.simkit import *
from types import SimpleNamespace
import itertools
RULE = 'parameter mappings with single values, strings, lists, tuples, ranges and empty lists; every kwargs combination executed by a recording model, sequentially and with worker processes'
LOG = []
class Rec:
    """a model that records how it was called"""
    def __init__(self, **kw):
        LOG.append(dict(kw))
        self.running = True; self.schedule = SimpleNamespace(steps=0)
        self.datacollector = SimpleNamespace(model_vars={'m': []}, _agent_records={}, agent_reporters={})
    def step(self):
        self.datacollector.model_vars['m'].append(self.schedule.steps); self.schedule.steps += 1
        if self.schedule.steps >= 2: self.running = False
def values(spec): return {k: (v['v'] if v['t'] == 'one' else tuple(v['v']) if v['t'] == 'tuple' else range(*v['v']) if v['t'] == 'range' else list(v['v'])) for k, v in spec.items()}
def lst(v): return [v['v']] if v['t'] == 'one' else list(range(*v['v'])) if v['t'] == 'range' else list(v['v'])
@check
def batch(c):
    import custom_batchrunner as cb
    with fresh_dir() as d, contextlib.redirect_stdout(io.StringIO()):
        del LOG[:]
        kw = {} if c['it'] is None else dict(iterations=c['it'])
        if c['seed'] is not None: kw['initial_seed'] = c['seed']
        it, s0 = c['it'] or 1, c['seed'] or 0
        res, path = cb.custom_batch_run(Rec, parameters=values(c['params']), batch_run_id='b', number_processes=c['procs'], display_progress=False, **kw)
        rows = []
        for f in path.glob('aggregate-results-*.csv'): rows = f.read_text().splitlines()
    want = [dict(zip(c['params'], combo)) for combo in itertools.product(*[lst(v) for v in c['params'].values()])]
    want = [(w, s0 + i) for w in want for i in range(it)]
    runs = LOG if c['procs'] == 1 else [{k: v for k, v in r.items() if k not in ('RunId', 'iteration', 'Step', 'm')} for r in res]
    need(len(runs) == len(want), '%d executions, should be %d' % (len(runs), len(want)))
    need(len(res) == len(want), '%d results for %d executions' % (len(res), len(want)))
    key = lambda w, s: json.dumps([w, s], sort_keys=True, default=str)
    got = sorted(key({k: r[k] for k in c['params'] if k in r}, r.get('seed')) for r in runs)
    exp = sorted(key(w, s) for w, s in want)
    need(got == exp, 'executed %s, should be %s' % (got[:6], exp[:6]))
    seqs = [r.get('seq_id') for r in runs]
    need(sorted(seqs) == list(range(1, len(want) + 1)), 'serial numbers of the executions: %s' % sorted(seqs))
    need(len({str(r.get('parent_dir')) for r in runs}) <= 1 and all(str(r['parent_dir']) == str(path) for r in runs), 'executions write to %s' % {str(r.get('parent_dir')) for r in runs})
    its = {}
    for r in res: its.setdefault(key({k: r[k] for k in c['params']}, None), []).append(r['seed'])
    for k, v in its.items(): need(len(set(v)) == it * (len(v) // it) // max(1, len(v) // it) if len(v) == it else True, 'iterations of %s use seeds %s' % (k, v))
    if want and c['procs'] == 1: need(len(rows) == len(want) + 1, 'the results file has %d lines for %d executions' % (len(rows), len(want)))
@check
def real_batch(c):
    import custom_batchrunner as cb, logic.sim as sim
    with fresh_dir() as d, contextlib.redirect_stdout(io.StringIO()):
        p = dict(n=c['n'], k=c['k'], a0=c['a0'], max_iterations=2, generate_graphs=False, stake_distr_source='Pareto')
        res, path = cb.custom_batch_run(sim.Simulation, parameters=p, batch_run_id='b', number_processes=c['procs'], iterations=c['it'], display_progress=False, initial_seed=5, max_steps=2)
        dirs = [x.name for x in path.iterdir() if x.is_dir()]
    N = len(c['k']) * len(c['a0']) * c['it']
    need(len(res) == N, '%d results, should be %d' % (len(res), N))
    need(len(dirs) == N and sorted(int(x.split('-')[0]) for x in dirs) == list(range(1, N + 1)), 'folders %s' % sorted(dirs))
    need(sorted((r['k'], r['a0'], r['seed']) for r in res) == sorted((k, a, 5 + i) for k in c['k'] for a in c['a0'] for i in range(c['it'])), 'executed %s' % [(r['k'], r['a0'], r['seed']) for r in res])
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 25 == 0:
            ctx.run('real_batch', dict(n=rng.randint(2, 4), k=rng.sample(range(1, 6), rng.randint(1, 2)), a0=rng.sample([.1, .3, 1.0], rng.randint(1, 2)), it=rng.randint(1, 2), procs=rng.choice([1, 1, 2]))); continue
        params = {}
        for n in rng.sample(['n', 'k', 'a0', 'src', 'phi', 'zeta', 'flag'], rng.randint(0, 4)):
            t = rng.choice(['one', 'one', 'list', 'list', 'tuple', 'range'])
            if t == 'range': v = [rng.randint(0, 2), rng.randint(2, 5)]
            elif t == 'one': v = rng.choice([1, .5, 'abc', True, None, '', 0])
            else: v = rng.sample([1, 2, 3, .5, 'x', 'yz', 0], rng.choice([0, 1, 1, 2, 3]))
            params[n] = dict(t=t, v=v)
        ctx.run('batch', dict(params=params, it=rng.choice([None, 1, 2, 3]), seed=rng.choice([None, 0, 7, 1000]), procs=1 if i % 12 else 2))
