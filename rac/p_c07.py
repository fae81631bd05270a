from rac.base import *
from rac.simkit import *
RULE = 'all orderings and ties of scripted current/expected/delegation/operation utilities and thresholds on agents of worlds; the same rule evaluated on every planned move of simulations'
@check
def choice(c):
    from logic.strategy import Strategy
    def f(m):
        m.relative_utility_threshold, m.absolute_utility_threshold = c['rel'], c['abs']
        a = m.get_agents_list()[c['i'] % len(m.get_agents_list())]
        before = a.strategy
        sd, so = Strategy(), (Strategy() if c['has_op'] else None)
        ue = {id(a.strategy): c['ue'], id(sd): c['ud'], id(so): c['uo']}
        if a.strategy is not None or type(a).__name__ != 'Abstainer':
            a.calculate_current_utility = lambda: c['uc']
            a.calculate_expected_utility = lambda s: ue[id(s)]
            a.find_delegation_move = lambda *x, **y: sd
            a.choose_pool_strategy = lambda *x, **y: (c['uo'] if c['has_op'] else 0, so)
        stale = c.get('stale')
        if stale and type(a).__name__ != 'Abstainer': a.new_strategy = Strategy()
        if c['via'] == 'step':
            ex = []
            a.execute_strategy = lambda: (ex.append(a.new_strategy), setattr(a, 'strategy', a.new_strategy), setattr(a, 'new_strategy', None))[0]
            m.current_step_idle = True
            a.step()
            sim = 'simultaneous' in m.agent_activation_order
            if sim:
                need(not ex and m.current_step_idle, 'the move was executed before its time')
                new = a.new_strategy
                a.advance()
            moved = a.strategy if a.strategy is not before else None
            need((moved is None) == m.current_step_idle, 'agent %s but the round counts as %s' % ('moved' if moved is not None else 'stayed', 'idle' if m.current_step_idle else 'not idle'))
            got = moved
        else:
            a.update_strategy(); got = a.new_strategy
            need(a.strategy is before, 'planning replaced the strategy in force')
        if type(a).__name__ == 'Abstainer': need(got is None and a.strategy is None, 'an abstainer moves'); return
        T = max((1 + c['rel']) * c['uc'], c['uc'] + c['abs'], (1 + c['rel']) * c['ue'], c['ue'] + c['abs'])
        opts = [(c['ud'], sd)] + ([(c['uo'], so)] if c['has_op'] else [])
        best = max(o[0] for o in opts)
        want = None if best <= T else [o for o in opts if o[0] == best][0][1]
        nm = lambda s: 'no move' if s is None else 'delegate' if s is sd else 'operate' if s is so else '?'
        need(got is want, 'chose %s, should be %s: bar %r, delegation %r, operation %r' % (nm(got), nm(want), T, c['ud'], c['uo'] if c['has_op'] else None))
    in_world(c['w'], f)
class W(Watch):
    def planned(self, a):
        m = self.m
        uc, ue = a.calculate_current_utility(), a.calculate_expected_utility(a.strategy)
        r, ab = m.relative_utility_threshold, m.absolute_utility_threshold
        T = max((1 + r) * uc, uc + ab, (1 + r) * ue, ue + ab)
        ud = a.calculate_expected_utility(a.find_delegation_move())
        if a.new_strategy is None: need(ud <= T + 1e-12, 'stays although delegating gives %r > %r' % (ud, T))
        else:
            u = a.calculate_expected_utility(a.new_strategy)
            need(u > T - 1e-13, 'moves for %r, the bar is %r' % (u, T))
            need(u >= ud - 1e-12, 'takes an option worth %r, delegation is worth %r' % (u, ud))
    def after_round(self):
        for a in self.m.get_agents_list():
            if type(a).__name__ == 'Abstainer':
                need(a.strategy is None and a.new_strategy is None, 'an abstainer moved')
                need(all(a.unique_id != p.owner and a.unique_id not in p.delegators for p in self.m.pools.values()), 'an abstainer owns or delegates')
@check
def in_sim(kw): run_watched(kw, W)
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 5 == 0: ctx.run('in_sim', gen_sim(rng, nmax=10)); continue
        b = [0.0, 1.0, 1.0, 1.5, 2.0, -0.5, -1.0, -1.5, 1.01, 1.5 * 1.5, real(rng)]
        rel, ab = rng.choice([0, 0, .5, .01]), rng.choice([0, 0, .5, .01])
        uc, ue = rng.choice(b), rng.choice(b)
        b2 = b + [uc, ue, (1 + rel) * uc, uc + ab, (1 + rel) * ue, ue + ab]
        ud = rng.choice(b2)
        ctx.run('choice', dict(w=gen_world(rng, n=rng.randint(1, 4)), i=rng.randint(0, 5), rel=rel, abs=ab, uc=uc, ue=ue, ud=ud, uo=rng.choice(b2 + [ud, ud, ud]), has_op=rng.random() < .8,
                               via=rng.choice(['step', 'update']), stale=rng.random() < .3))
