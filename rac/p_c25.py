from rac.base import *
from rac.simkit import *
from rac.metrics import value, snap, same
import csv
RULE = 'the exported files of generated worlds and of finished simulations, parsed and compared with the state of the model'
def rows(m, prefix):
    fs = list(m.directory.glob(prefix + '*.csv'))
    need(len(fs) == 1, 'files %s' % fs)
    with open(fs[0], newline='') as f: return list(csv.reader(f))
def num(x):
    return float(x)
def eq(got, want, what, rounded=True):
    if isinstance(want, str): need(got == want, '%s is exported as %r, should be %r' % (what, got, want))
    else: need(close(num(got), want, 1e-9, 1.1e-15 if rounded else 1e-13), '%s is exported as %r, should be %r' % (what, got, want))
def chk_pools(m):
    r = rows(m, 'final-state-pools-')
    need(len(r) == len(m.pools) + 1, '%d rows for %d pools' % (len(r) - 1, len(m.pools)))
    ag = m.get_agents_dict()
    H = ["Pool id", "Owner id", "Owner stake", "Pool Pledge", "Pool stake", "Owner cost", "Pool cost", "Pool margin", "Pool PP", "Pool desirability"]
    need(r[0] == H, 'header %s' % r[0])
    need(sorted(int(x[0]) for x in r[1:]) == sorted(m.pools), 'pools exported: %s' % [x[0] for x in r[1:]])
    for x in r[1:]:
        p = m.pools[int(x[0])]
        for got, want, n in zip(x, [p.id, p.owner, ag[p.owner].stake, p.pledge, p.stake, ag[p.owner].cost, p.cost, p.margin, p.potential_profit, p.desirability], H): eq(got, want, '%s of pool %d' % (n, p.id))
def chk_agents(m):
    r = rows(m, 'final-state-stakeholders-')
    A = m.get_agents_list(); e = econ(m)
    H = ["Agent id", "Initial stake", "Cost", "Potential Profit", "Status", "Pools owned", "Total pool stake", "Pool splitting profit", "Profitable pool splitter"]
    need(r[0] == H, 'header %s' % r[0])
    need([int(x[0]) for x in r[1:]] == list(range(len(A))), 'agents exported: %s' % [x[0] for x in r[1:]])
    ag = m.get_agents_dict()
    for x in r[1:]:
        a = ag[int(x[0])]
        own = [p for p in m.pools.values() if p.owner == a.unique_id]
        sp = (1 + m.reward_scheme.a0) * (1 - m.extra_pool_cost_fraction) * a.cost - a.stake * m.reward_scheme.a0
        w = [a.unique_id, a.stake, a.cost, e.pp(a.stake, a.cost), 'Abstainer' if type(a).__name__ == 'Abstainer' else 'Operator' if own else 'Delegator', len(own), sum(p.stake for p in own), sp, None]
        for got, want, n in zip(x, w, H):
            if want is not None: eq(got, want, '%s of agent %d' % (n, a.unique_id), n in H[1:4])
        if abs(sp) > 1e-15: eq(x[8], 'YES' if sp > 0 else 'NO', 'splitter flag of agent %d' % a.unique_id)
def chk_desc(m, conv):
    with open(m.directory / 'final-state-descriptors.json') as f: d = json.load(f)
    st = snap(m)
    need(d['Equilibrium reached'] == ('Yes' if conv else 'No'), 'equilibrium reached: %r' % d['Equilibrium reached'])
    need(d['Pool count'] == len(m.pools), 'pool count %r' % d['Pool count'])
    need(d['Operator count'] == len({p.owner for p in m.pools.values()}), 'operator count %r' % d['Operator count'])
    nc = value(9, st)
    if nc is not None: need(int(d['Nakamoto coefficient']) == nc, 'Nakamoto coefficient %r, should be %r' % (d['Nakamoto coefficient'], nc))
    need(abs(d['Total pledge fraction'] - sum(p.pledge for p in m.pools.values())) <= 5.1e-5, 'total pledge %r' % d['Total pledge fraction'])
def chk_metrics(m):
    with open(m.directory / 'metrics.csv', newline='') as f: r = list(csv.reader(f))
    mv = m.datacollector.model_vars
    need(r[0] == ['Round'] + list(mv), 'header of the metrics file: %s' % r[0])
    n = len(next(iter(mv.values())))
    need(len(r) == n + 1, '%d rows of metrics for %d collected rounds' % (len(r) - 1, n))
    for i, x in enumerate(r[1:]):
        need(int(x[0]) == i, 'round %s in row %d' % (x[0], i))
        for g, (k, v) in zip(x[1:], mv.items()):
            if isinstance(v[i], (int, float)) or hasattr(v[i], 'item'): need(close(float(g), float(v[i]), 1e-9, 1e-15), '%s of round %d is exported as %s, collected %r' % (k, i, g, v[i]))
@check
def world(c):
    def f(m):
        m.consecutive_idle_steps = c['idle']
        m.export_pools_file(); m.export_agents_file(); m.export_final_state_desc_file()
        chk_pools(m); chk_agents(m); chk_desc(m, c['idle'] >= m.iterations_after_convergence)
        for _ in range(c['rounds']): m.datacollector.collect(m)
        if c['rounds']: m.export_metrics_file(); chk_metrics(m)
    in_world(c['w'], f)
@check
def finished(kw):
    with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
        m = make_sim(kw); m.run_model()
        chk_pools(m); chk_agents(m); chk_metrics(m); chk_desc(m, m.consecutive_idle_steps >= m.iterations_after_convergence)
        if m.schedule.steps < m.max_iterations: need(m.has_converged(), 'the run ended early without convergence')
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 4 == 0:
            kw = gen_sim(rng, nmax=12)
            if isinstance(kw['a0'], list): kw['a0'] = kw['a0'][0]
            ctx.run('finished', kw)
        else: ctx.run('world', dict(w=gen_world(rng), idle=rng.choice([0, 5, 9, 10, 11]), rounds=rng.choice([0, 0, 2])))
