"""Worlds (hand-built states) and simulations of the real code, with independent oracles for rewards, profits and rankings."""
import contextlib, copy, io, json, os, random, shutil, tempfile
from rac.base import *
from contracts import scalar as sc
from pyver.spec import Conc

S = Conc()
SCHEME = ['CardanoRSS', 'SimplifiedRSS', 'FlatPledgeBenefitRSS', 'CurvePledgeBenefitRSS', 'CIP50RSS']
MSU = 2.2e-17
MAIN = {'NonMyopic': 0, 'Myopic': 1, 'Abstainer': 2}

def o_reward(scheme, beta, a0, pledge, stake):
    f = [sc.cardano, sc.simplified, sc.flat, None, sc.cip50][scheme]
    if scheme == 3: return sc.curve(S, a0, beta, pledge, stake, 8, 3)
    return f(S, a0, beta, pledge, stake)
def o_thr(scheme, beta, a0, pledge): return min(a0 * pledge, beta) if scheme == 4 else beta
def o_pp(scheme, beta, a0, pledge, cost): return o_reward(scheme, beta, a0, pledge, o_thr(scheme, beta, a0, pledge)) - cost
def o_op(margin, cost, reward, frac):
    p = reward - cost
    return p if p <= 0 else p * (margin + (1 - margin) * frac)
def o_del(margin, cost, reward, frac): return max((1 - margin) * frac * (reward - cost), 0)
class Econ:
    """the reward scheme of a model, by the published formulas"""
    def __init__(self, scheme, beta, a0): self.s, self.b, self.a0 = scheme, beta, a0
    def reward(self, pledge, stake): return o_reward(self.s, self.b, self.a0, pledge, stake)
    def thr(self, pledge): return o_thr(self.s, self.b, self.a0, pledge)
    def pp(self, pledge, cost): return o_pp(self.s, self.b, self.a0, pledge, cost)
    def op(self, stake, pledge, margin, cost): return o_op(margin, cost, self.reward(pledge, stake), pledge / stake if stake > 0 else 0)
    def dl(self, alloc, stake, pledge, margin, cost): return o_del(margin, cost, self.reward(pledge, stake), alloc / stake if stake > 0 else 0)
    def myo(self, p): return max((1 - p.margin) * (self.reward(p.pledge, p.stake) - p.cost), 0)
def econ(m):
    r = m.reward_scheme
    return Econ(SCHEME.index(type(r).__name__), r.global_saturation_threshold, r.a0)

@contextlib.contextmanager
def fresh_dir():
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix='case_', dir=os.environ.get('RAC_SCRATCH'))
    os.chdir(d)
    try: yield d
    finally:
        os.chdir(cwd); shutil.rmtree(d, ignore_errors=True)

# ------------------------------------------------------------------ simulations
def gen_sim(rng, orders=('random', 'sequential', 'simultaneous', 'semisimultaneous'), phases=.3, nmax=30, steps=12):
    n = rng.choice([2, 3, 5, 8, 12, 20, rng.randint(2, nmax)])
    k = rng.choice([1, 2, 3, 5, 8, 10])
    kw = dict(n=n, k=k, a0=rng.choice([0, 0.1, 0.3, 1.0, 5.0]), seed=rng.randint(0, 99999), agent_activation_order=rng.choice(list(orders)),
              agent_profile_distr=rng.choice([[1, 0, 0], [0, 1, 0], [1, 1, 0], [1, 1, 1], [2, 1, 1]]), reward_scheme=rng.choice([0, 0, 0, 1, 2, 3, 4]),
              cost_min=rng.choice([1e-5, 1e-6, 1e-4]), cost_max=rng.choice([1e-4, 1e-3, 1e-2]), stake_distr_source=rng.choice(['pareto', 'pareto', 'flat']),
              extra_pool_cost_fraction=rng.choice([0.4, 0.0, 1.0, 0.1]), max_iterations=rng.choice([3, 6, steps]), iterations_after_convergence=rng.choice([1, 2, 3]),
              relative_utility_threshold=rng.choice([0, 0, 0.01]), absolute_utility_threshold=rng.choice([0, 1e-9, 1e-6]), pareto_param=rng.choice([2.0, 1.1, 3.0]))
    if rng.random() < phases:
        kw['k'] = [k] + [rng.choice([1, 2, 3, 5, 9, 20]) for _ in range(rng.randint(1, 2))]
        if rng.random() < .5: kw['a0'] = [kw['a0'], rng.choice([0, 0.3, 2.0])]
        kw['iterations_after_convergence'] = 1
        kw['max_iterations'] = steps
    if rng.random() < .3:
        kw['inactive_stake_fraction'] = rng.choice([0.1, 0.5, 0.3])
        kw['inactive_stake_fraction_known'] = rng.random() < .5
    if rng.random() < .3: kw['metrics'] = rng.sample([1, 2, 3, 4, 5, 6, 9, 17, 18, 25], 3)
    return kw

def make_sim(kw):
    import logic.sim as sim
    return sim.Simulation(generate_graphs=False, **kw)

@contextlib.contextmanager
def hooks(after_move=None, before_move=None, after_plan=None, after_phase=None, after_draft=None):
    """wrap the methods of the real classes"""
    from logic.stakeholder import Stakeholder
    import logic.stakeholder_profiles as pr
    import logic.sim as sim
    saved = []
    def wrap(cls, name, pre=None, post=None):
        if name not in cls.__dict__: return
        f = cls.__dict__[name]
        def g(self, *a, **kw):
            st = pre(self) if pre else None
            r = f(self, *a, **kw)
            if post: post(self, (st, r) if name == 'find_operator_move' else st)
            return r
        saved.append((cls, name, f)); setattr(cls, name, g)
    try:
        for cls in [Stakeholder] + [c for c in vars(pr).values() if isinstance(c, type) and issubclass(c, Stakeholder) and c is not Stakeholder]:
            if after_move or before_move: wrap(cls, 'execute_strategy', before_move, (lambda s, st: after_move(s, st)) if after_move else None)
            if after_draft: wrap(cls, 'find_operator_move', lambda s: set(s.strategy.owned_pools), lambda s, st: after_draft(s, *st))
            if after_plan and cls.__name__ != 'Abstainer': wrap(cls, 'update_strategy', None, lambda s, st: after_plan(s))
        if after_phase: wrap(sim.Simulation, 'change_phase', lambda s: snapshot_params(s), lambda s, st: after_phase(s, st))
        yield
    finally:
        for cls, name, f in reversed(saved): setattr(cls, name, f)
def snapshot_params(m):
    r = m.reward_scheme
    return dict(k=r.k, a0=r.a0, beta=r.global_saturation_threshold, phase=m.current_phase, pivots=list(m.pivot_steps), steps=m.schedule.steps,
                **{f: getattr(m, f) for f in ('relative_utility_threshold', 'absolute_utility_threshold', 'max_iterations', 'extra_pool_cost_fraction', 'n', 'agent_activation_order')})

def run_watched(kw, watch, planned=None):
    with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
        m = make_sim(kw)
        w = watch(m)
        with hooks(after_move=lambda a, st: a.model is m and w.moved(a), after_plan=lambda a: a.model is m and w.planned(a), after_phase=lambda s, st: s is m and w.phase(st), after_draft=lambda a, old, r: a.model is m and w.draft(a, old, r)):
            lim = 60
            while m.running and m.schedule.steps <= m.max_iterations and lim:
                lim -= 1
                w.before_round(); m.step(); w.after_round()
        w.end()
    return None
class Watch:
    def __init__(self, m): self.m = m; self.start()
    def start(self): pass
    def moved(self, a): pass
    def planned(self, a): pass
    def draft(self, a, old, r): pass
    def phase(self, st): pass
    def before_round(self): pass
    def after_round(self): pass
    def end(self): pass

# ------------------------------------------------------------------ invariants of a state
def inv_ledger(m):
    agents = m.get_agents_dict()
    for pid, p in m.pools.items():
        tot = p.pledge + sum(p.delegators.values())
        need(close(p.stake, tot, 1e-9, 1e-11), 'pool %s has stake %r but pledge + delegations = %r' % (pid, p.stake, tot))
        for aid, v in p.delegators.items():
            s = agents[aid].strategy
            need(s is not None and close(s.stake_allocations.get(pid, 0), v, 1e-9, 1e-12), 'pool %s records a delegation of %r by agent %s, the agent records %r' %
                 (pid, v, aid, None if s is None else s.stake_allocations.get(pid)))
            need(v > 0, 'delegation of %r to pool %s' % (v, pid))
        need(not (p.is_private and p.delegators), 'private pool %s has delegators %s' % (pid, list(p.delegators)))
        need(p.owner not in p.delegators, 'owner %s delegates to its own pool %s' % (p.owner, pid))
    for a in agents.values():
        if a.strategy is None: continue
        for pid, v in a.strategy.stake_allocations.items():
            need(pid in m.pools, 'agent %s delegates to pool %s, which is closed' % (a.unique_id, pid))
            need(close(m.pools[pid].delegators.get(a.unique_id, 0), v, 1e-9, 1e-12), 'agent %s records a delegation of %r to pool %s, the pool records %r' %
                 (a.unique_id, v, pid, m.pools[pid].delegators.get(a.unique_id)))
            need(m.pools[pid].owner != a.unique_id, 'agent %s delegates to its own pool' % a.unique_id)
def inv_open(m):
    agents = m.get_agents_dict()
    for pid, p in m.pools.items():
        need(p.id == pid, 'pool %s is filed under id %s' % (p.id, pid))
        o = agents.get(p.owner)
        need(o is not None and o.strategy is not None and o.strategy.owned_pools.get(pid) is p, 'pool %s: its owner %s does not list it' % (pid, p.owner))
    for a in agents.values():
        if a.strategy is None: continue
        for pid, p in a.strategy.owned_pools.items():
            need(m.pools.get(pid) is p, 'agent %s lists pool %s, which is not the open pool of that id' % (a.unique_id, pid))
            need(p.owner == a.unique_id, 'agent %s lists pool %s of owner %s' % (a.unique_id, pid, p.owner))
def inv_rankings(m):
    e = econ(m)
    for name, r in (('main', m.pool_rankings), ('myopic', m.pool_rankings_myopic)):
        ps = [p for p in r if p is not None]
        ids = [p.id for p in ps]
        need(len(set(ids)) == len(ids), '%s ranking holds a pool twice: %s' % (name, ids))
        need(set(ids) == set(m.pools), '%s ranking holds %s, open pools are %s' % (name, sorted(ids), sorted(m.pools)))
        need(all(p is m.pools[p.id] for p in ps), '%s ranking holds an outdated copy of a pool' % name)
        for p, q in zip(ps, ps[1:]):
            if name == 'main':
                kp, kq = (-p.desirability, -p.potential_profit, p.id), (-q.desirability, -q.potential_profit, q.id)
                need(kp < kq, 'main ranking out of order: pool %s %r before pool %s %r' % (p.id, kp, q.id, kq))
            else:
                dp, dq = e.myo(p), e.myo(q)
                if close(dp, dq, 1e-9, 1e-13):
                    if p.stake == q.stake and p.pledge == q.pledge and p.margin == q.margin and p.cost == q.cost:
                        need(p.id < q.id, 'myopic ranking: tie between pools %s and %s not decided by age' % (p.id, q.id))
                else: need(dp > dq, 'myopic ranking out of order: pool %s (%r) before pool %s (%r)' % (p.id, dp, q.id, dq))
def inv_fresh(m):
    e = econ(m)
    for p in m.pools.values(): pool_fresh(e, p)
def pool_fresh(e, p):
    pp = e.pp(p.pledge, p.cost)
    need(close(p.potential_profit, pp, 1e-9, 1e-13), 'pool %s: potential profit %r, should be %r' % (p.id, p.potential_profit, pp))
    d = max((1 - p.margin) * pp, 0)
    need(close(p.desirability, d, 1e-9, 1e-13), 'pool %s: desirability %r, should be %r' % (p.id, p.desirability, d))
    need(0 <= p.margin <= 1, 'pool %s: margin %r' % (p.id, p.margin))
def inv_commit(m):
    for a in m.get_agents_list():
        if a.strategy is None: continue
        need_commit(a, a.strategy, 'holds')
    tot = sum(p.stake for p in m.pools.values())
    have = sum(a.stake for a in m.get_agents_list())
    need(tot <= have * (1 + 1e-9) + 1e-12, 'pools hold %r, all agents own %r' % (tot, have))
def need_commit(a, s, what):
    tot = sum(p.pledge for p in s.owned_pools.values()) + sum(s.stake_allocations.values())
    need(tot <= a.stake * (1 + 1e-9) + 1e-12, 'agent %s with stake %r %s a strategy committing %r' % (a.unique_id, a.stake, what, tot))

# ------------------------------------------------------------------ worlds
def gen_world(rng, n=None, schemes=(0, 0, 0, 1, 2, 3, 4), profiles=(0, 1, 2), invariant=True):
    n = n or rng.randint(2, 7)
    k = rng.choice([1, 2, 3, 4, 6, 10])
    sch = rng.choice(schemes)
    a0 = rng.choice([0.0, 0.3, 0.1, 1.0, 3.0]) if sch != 4 else rng.choice([0.5, 2.0, 10.0, 50.0])
    raw = [rng.choice([1.0, 1.0, rng.random(), rng.paretovariate(1.5), 0.1, rng.random() * 0.01, 5.0]) for _ in range(n)]
    tot = sum(raw) / rng.choice([1, 1, 1, 0.7])
    beta = 1 / k
    agents = [dict(profile=rng.choice(profiles), stake=x / tot, cost=rng.choice([1e-4, 1e-3, 1e-5, 0.01, 0.05, rng.random() * 0.02])) for x in raw]
    if rng.random() < .05: agents[rng.randrange(n)]['stake'] = 0.0
    e = Econ(sch, beta, a0)
    pools, deleg = [], []
    left = {}
    share = rng.random()
    for i, a in enumerate(agents):
        left[i] = a['stake']
        if a['profile'] == 2 or rng.random() > share: continue
        t = rng.choice([1, 1, 1, 2, 3])
        pl = min(a['stake'] / t, beta) * rng.choice([1, 1, 1, 0.5, 1e-3])
        for _ in range(t):
            pools.append(dict(owner=i, pledge=pl, cost=a['cost'] * rng.choice([1, 1, 0.7]), margin=rng.choice([0.0, 0.0, 0.1, 0.5, 1.0, rng.random()]), private=pl >= e.thr(pl)))
        left[i] -= pl * t
    if len(pools) > 1 and rng.random() < .4:           # ties
        a, b = rng.sample(pools, 2)
        if a['pledge'] <= agents[b['owner']]['stake'] and a['private'] == b['private'] and sum(p['owner'] == b['owner'] for p in pools) == 1:
            left[b['owner']] += b['pledge'] - a['pledge']
            b.update(pledge=a['pledge'], cost=a['cost'], margin=a['margin'])
    for i, a in enumerate(agents):
        if a['profile'] == 2 or left[i] <= 1e-15: continue
        pub = [j for j, p in enumerate(pools) if p['owner'] != i and not p['private']]
        rng.shuffle(pub)
        for j in pub[:rng.choice([0, 1, 1, 2, 3])]:
            amt = left[i] * rng.choice([1, 0.5, 0.3, rng.random()])
            if amt <= 1e-12: continue
            room = e.thr(pools[j]['pledge']) - pools[j]['pledge'] - sum(d[2] for d in deleg if d[1] == j)
            if rng.random() < .3 and 1e-9 < room < left[i]: amt = room        # saturate exactly
            deleg.append([i, j, amt]); left[i] -= amt
    return dict(scheme=sch, k=k, a0=a0, agents=agents, pools=pools, deleg=deleg, order=rng.choice(['random', 'sequential', 'semisimultaneous', 'simultaneous']),
                rel=rng.choice([0, 0, 0.01, 0.5]), abs=rng.choice([0, 0, 1e-9, 1e-3]), epcf=rng.choice([0.4, 0.0, 1.0]), seed=rng.randint(0, 9999), skip=rng.choice([0, 0, 3]))

def build(spec, **extra):
    import logic.sim as sim, logic.stakeholder_profiles as pr
    from logic.pool import Pool
    ag = spec['agents']
    kw = dict(n=len(ag), k=spec['k'], a0=spec['a0'], reward_scheme=spec['scheme'], agent_activation_order=spec['order'], relative_utility_threshold=spec['rel'],
              absolute_utility_threshold=spec['abs'], extra_pool_cost_fraction=spec['epcf'], seed=spec['seed'], stake_distr_source='flat', generate_graphs=False)
    kw.update(extra)
    m = sim.Simulation(**kw)
    sched = type(m.schedule)(m)
    for i, a in enumerate(ag):
        sched.add(pr.PROFILE_MAPPING[a['profile']](unique_id=i, model=m, stake=a['stake'], cost=a['cost']))
    m.schedule = sched
    agents = m.get_agents_dict()
    ids = []
    for j, p in enumerate(spec['pools']):
        for _ in range(spec['skip']): m.get_next_pool_id()
        pid = m.get_next_pool_id()
        o = Pool(pool_id=pid, cost=p['cost'], pledge=p['pledge'], owner=p['owner'], reward_scheme=m.reward_scheme, margin=p['margin'], is_private=p['private'])
        m.pools[pid] = o; agents[p['owner']].strategy.owned_pools[pid] = o
        ids.append(pid)
    for i, j, amt in spec['deleg']:
        m.pools[ids[j]].update_delegation(amt, i)
        agents[i].strategy.stake_allocations[ids[j]] = amt
    for p in m.pools.values():
        m.pool_rankings.add(p); m.pool_rankings_myopic.add(p)
    m.ids = ids
    return m
def ranked(a):
    """the agent's ranking by the documented order (independent of the SortedList)"""
    m = a.model; e = econ(m)
    if type(a).__name__ == 'MyopicStakeholder': return sorted(m.pools.values(), key=lambda p: (-e.myo(p), p.id))
    return sorted(m.pools.values(), key=lambda p: (-p.desirability, -p.potential_profit, p.id))
def state(m):
    """a deep picture of pools, delegations, strategies"""
    return dict(pools={pid: dict(obj=id(p), stake=p.stake, pledge=p.pledge, cost=p.cost, margin=p.margin, owner=p.owner, private=p.is_private, pp=p.potential_profit,
                                 des=p.desirability, dele=dict(p.delegators)) for pid, p in m.pools.items()},
                agents={a.unique_id: None if a.strategy is None else (id(a.strategy), dict(a.strategy.stake_allocations), {k: id(v) for k, v in a.strategy.owned_pools.items()})
                        for a in m.get_agents_list()},
                stakes={a.unique_id: (a.stake, a.cost) for a in m.get_agents_list()},
                rank=[[None if p is None else p.id for p in r] for r in (m.pool_rankings, m.pool_rankings_myopic)],
                par=snapshot_params(m), misc=(m.total_stake, m.consecutive_idle_steps, m.current_step_idle, m.running))
def same_state(a, b, what, ranks=True, m=None):
    need(set(a['pools']) == set(b['pools']), '%s changed the set of open pools' % what)
    for pid, p in a['pools'].items():
        q = b['pools'][pid]
        for f in p:
            if f == 'dele':
                need(set(p[f]) == set(q[f]) and all(close(p[f][x], q[f][x], 1e-9, 1e-14) for x in p[f]), '%s changed the delegations of pool %s: %s -> %s' % (what, pid, p[f], q[f]))
            elif isinstance(p[f], float): need(close(p[f], q[f], 1e-9, 1e-14), '%s changed %s of pool %s: %r -> %r' % (what, f, pid, p[f], q[f]))
            else: need(p[f] == q[f], '%s changed %s of pool %s' % (what, f, pid))
    need(a['agents'] == b['agents'], '%s changed the strategies in force' % what)
    need(a['stakes'] == b['stakes'], '%s changed stake or cost of an agent' % what)
    need(a['par'] == b['par'] and a['misc'] == b['misc'], '%s changed parameters of the model' % what)
    if ranks:
        for i, n in ((0, 'main'), (1, 'myopic')):
            need(sorted(map(str, a['rank'][i])) == sorted(map(str, b['rank'][i])), '%s changed the content of the %s ranking' % (what, n))
            if i == 0: need(a['rank'][i] == b['rank'][i], '%s changed the order of the main ranking' % what)
            elif a['rank'][i] != b['rank'][i] and m is not None: inv_rankings(m)
def in_world(spec, fn, **extra):
    with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
        m = build(spec, **extra)
        fn(m)
