from rac.base import *
from rac.simkit import *
RULE = 'worlds with pools entering phases with any subset of the parameters scheduled, with known inactive stake; and simulations with phases'
FIELDS = ['k', 'a0', 'relative_utility_threshold', 'absolute_utility_threshold', 'max_iterations', 'extra_pool_cost_fraction']
NAME = {'k': 'k', 'a0': 'a0'}
def expect(kw, key, phase, f):
    v = kw[key]
    if not isinstance(v, list): return v
    return v[min(phase, len(v) - 1)]
def chk(m, kw, f, old, pools, phase):
    now = snapshot_params(m)
    need(now['phase'] == phase, 'phase %d, should be %d' % (now['phase'], phase))
    setany = False
    for key in FIELDS:
        if key not in kw: continue
        v = kw[key]
        if isinstance(v, list) and len(v) > phase: setany = True
        w = expect(kw, key, phase, f)
        if key == 'k':
            need(close(now['beta'], (1 - f) / w), 'threshold %r in phase %d, should be %r' % (now['beta'], phase, (1 - f) / w))
            x = w / (1 - f)
            if abs(x - round(x)) > 1e-9: need(now['k'] == int(x), 'k = %r in phase %d, should be %d' % (now['k'], phase, int(x)))
            else: need(abs(now['k'] - x) <= 1, 'k = %r in phase %d, should be %r' % (now['k'], phase, x))
        else: need(now[key] == w, '%s = %r in phase %d, should be %r' % (key, now[key], phase, w))
    for key in ('n', 'agent_activation_order'): need(now[key] == old[key], '%s changed' % key)
    need(now['pivots'] == old['pivots'] + ([now['steps']] if setany else []), 'parameter changes recorded at %s, should be %s' % (now['pivots'], old['pivots'] + ([now['steps']] if setany else [])))
    need(set(m.pools) == pools, 'a phase change opened or closed pools')
    inv_fresh(m); inv_rankings(m)
    for n, r in (('main', m.pool_rankings), ('myopic', m.pool_rankings_myopic)):
        need(sum(p is None for p in r) >= m.reward_scheme.k, 'only %d placeholders in the %s ranking, k is %d' % (sum(p is None for p in r), n, m.reward_scheme.k))
@check
def enter(c):
    def f(m):
        kw = dict(k=c['w']['k'], a0=c['w']['a0'], relative_utility_threshold=c['w']['rel'], absolute_utility_threshold=c['w']['abs'], extra_pool_cost_fraction=c['w']['epcf'], max_iterations=1000)
        kw.update(c['ex'])
        fr = c['f'] if c['known'] else 0
        for ph in range(1, c['n'] + 1):
            old, pools = snapshot_params(m), set(m.pools)
            m.schedule.steps += c['gap']
            m.change_phase()
            chk(m, kw, fr, old, pools, ph)
            for a in m.get_agents_list():
                if a.strategy is not None and c['act']:
                    a.update_strategy()
                    if a.new_strategy is not None: a.execute_strategy()
    ex = dict(c['ex']); ex['inactive_stake_fraction'], ex['inactive_stake_fraction_known'] = c['f'], c['known']
    in_world(c['w'], f, **ex)
class W(Watch):
    def before_round(self): self.pools = None
    def phase(self, st):
        m, kw = self.m, self.kw
        f = kw.get('inactive_stake_fraction', 0) if kw.get('inactive_stake_fraction_known') else 0
        chk(m, kw, f, st, set(m.pools), st['phase'] + 1)
@check
def in_sim(kw): W.kw = kw; run_watched(kw, W)
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 4 == 0: ctx.run('in_sim', gen_sim(rng, phases=1, nmax=8)); continue
        w = gen_world(rng); n = rng.randint(1, 3)
        vals = dict(k=lambda: rng.choice([1, 2, 5, 20, 3]), a0=lambda: rng.choice([0.1, .3, 2.0, 10.0]), relative_utility_threshold=lambda: rng.choice([0, .1, .01]), absolute_utility_threshold=lambda: rng.choice([0, 1e-9, 1e-3]),
                    max_iterations=lambda: rng.randint(1, 100), extra_pool_cost_fraction=lambda: rng.choice([0, .4, 1]))
        now = dict(k=w['k'], a0=w['a0'], relative_utility_threshold=w['rel'], absolute_utility_threshold=w['abs'], max_iterations=1000, extra_pool_cost_fraction=w['epcf'])
        ex = {f: [now[f]] + [vals[f]() for _ in range(rng.randint(0, n))] for f in vals if rng.random() < .4}
        known = rng.random() < .4
        ctx.run('enter', dict(w=w, n=n, ex=ex, known=known, f=rng.choice([0, .1, .5, .25]) if known else 0, gap=rng.choice([0, 1, 5]), act=rng.random() < .5))
