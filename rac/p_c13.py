from rac.base import *
from rac.simkit import *
RULE = 'fresh simulations with every stake source, n, seed, cost range and inactive fraction; the sampled distribution is observed where it is generated'
@check
def fresh(c):
    import logic.helper as h
    kw = dict(c['kw']); got = {}
    with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
        if c.get('file'):
            with open('synthetic-stake-distribution-%d-agents.csv' % c['file_n'] if c['file_n'] != 10000 else 'synthetic-stake-distribution-10000-agents.csv', 'w') as f:
                f.write('\n'.join(map(repr, c['file'])))
        saved = {}
        def wrap(name):
            o = saved[name] = getattr(h, name)
            def g(*a, **k):
                r = o(*a, **k); got['s'] = [float(x) for x in r]; return r
            setattr(h, name, g)
        def wrapc(name):
            o = saved[name] = getattr(h, name)
            def g(*a, **k):
                r = o(*a, **k); got['c'] = [float(x) for x in r]; return r
            setattr(h, name, g)
        try:
            for n in ('generate_stake_distr_pareto', 'generate_stake_distr_flat', 'generate_stake_distr_disparity', 'read_stake_distr_from_file'): wrap(n)
            wrapc('generate_cost_distr_unfrm')
            m = make_sim(kw)
        finally:
            for n, o in saved.items(): setattr(h, n, o)
    f = kw.get('inactive_stake_fraction', 0); n = kw['n']
    ags = m.get_agents_list()
    need(len(ags) == n, '%d agents instead of %d' % (len(ags), n))
    need([a.unique_id for a in ags] == list(range(n)), 'ids of the agents: %s' % [a.unique_id for a in ags])
    need(sorted(m.get_agents_dict()) == list(range(n)), 'ids of the agents')
    tot = math.fsum(a.stake for a in ags)
    need(close(tot + f, 1, 0, 1e-9), 'stakes of the agents %r plus the inactive fraction %r is not 1' % (tot, f))
    need(close(m.total_stake, 1, 0, 1e-9), 'total stake is reported as %r' % m.total_stake)
    lo, hi = kw.get('cost_min', 1e-5), kw.get('cost_max', 1e-4)
    for a in ags:
        need(lo * (1 - 1e-12) <= a.cost <= hi * (1 + 1e-12), 'agent %s has cost %r outside [%r, %r]' % (a.unique_id, a.cost, lo, hi))
        need(a.stake >= -1e-12, 'agent %s has stake %r' % (a.unique_id, a.stake))
    d = got.get('s')
    if d is not None and len(d) == n:
        sd = math.fsum(d)
        for a, x in zip(ags, d):
            need(close(a.stake, x / sd * (1 - f), 1e-9, 1e-10), 'agent %s has stake %r, its share of the distribution is %r' % (a.unique_id, a.stake, x / sd * (1 - f)))
    src = kw['stake_distr_source'].lower()
    if src == 'flat':
        for a in ags: need(close(a.stake, (1 - f) / n, 1e-9, 1e-10), 'flat stake %r' % a.stake)
    if src == 'file' and len(c['file']) == n:
        sd = math.fsum(c['file'])
        for a, x in zip(ags, c['file']): need(close(a.stake, x / sd * (1 - f), 1e-9, 1e-10), 'agent %s does not get the stake of its row' % a.unique_id)
def run(ctx):
    rng = ctx.rng
    while ctx.more():
        n = rng.choice([1, 2, 3, 4, 5, 10, 50, rng.randint(1, 200)])
        src = rng.choice(['pareto', 'Pareto', 'flat', 'disparity', 'file'])
        if src == 'disparity': n = max(n, 4)
        lo = rng.choice([1e-5, 0, 1e-3, 1e-6])
        kw = dict(n=n, k=rng.choice([1, 5, 50]), seed=rng.randint(0, 10 ** 6), stake_distr_source=src, cost_min=lo, cost_max=lo + rng.choice([0, 1e-4, 1]),
                  pareto_param=rng.choice([2.0, 1.05, 5, 1.5]), agent_profile_distr=rng.choice([[1, 0, 0], [1, 1, 1], [0, 0, 1]]), agent_activation_order=rng.choice(['random', 'sequential', 'simultaneous', 'semisimultaneous']),
                  inactive_stake_fraction=rng.choice([0, 0, 0.1, 0.5, 0.9, rng.random() * .99]), inactive_stake_fraction_known=rng.random() < .3)
        c = dict(kw=kw)
        if src == 'file':
            c['file_n'] = rng.choice([n, n, 10000])
            c['file'] = [rng.choice([rng.random(), rng.paretovariate(1.2), 1.0]) for _ in range(n if c['file_n'] == n else rng.choice([n, n + 5, max(1, n - 3)]))]
        ctx.run('fresh', c)
