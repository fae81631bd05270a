from rac.base import *
from rac.simkit import *
RULE = 'the invariant evaluated after every executed move, phase change and round of simulations under all four activation orders, and after moves executed in hand-built worlds'
def inv_both(m): inv_open(m); inv_rankings(m)
class W(Watch):
    def start(self): inv_commit(self.m)
    def moved(self, a): inv_commit(self.m)
    def phase(self, st): inv_commit(self.m)
    def after_round(self): inv_commit(self.m)
    def planned(self, a):
        if a.new_strategy is not None: need_commit(a, a.new_strategy, "considers")
@check
def in_sim(kw): run_watched(kw, W)
@check
def moves(c):
    def f(m):
        inv_commit(m)
        ags = [a for a in m.get_agents_list() if a.strategy is not None]
        if not ags: return
        for i, how in c['seq']:
            a = ags[i % len(ags)]
            if how == 'delegate': a.new_strategy = a.find_delegation_move()
            elif how == 'both' and 'simultaneous' not in m.agent_activation_order: continue
            elif how == 'both':
                b = ags[(i + 1) % len(ags)]
                for x in (a, b):
                    x.update_strategy()
                for x in (a, b): x.advance(); inv_commit(m)
                continue
            else:
                t = how
                if t > m.reward_scheme.k: continue
                margins, u = a.calculate_margins_and_utility(num_pools=t)
                a.new_strategy = a.find_operator_move(t, a.determine_pools_to_keep(t), margins)
            need_commit(a, a.new_strategy, "considers")
            a.advance(); inv_commit(m)
    in_world(c['w'], f)
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 3 == 0: ctx.run('in_sim', gen_sim(rng))
        else: ctx.run('moves', dict(w=gen_world(rng), seq=[[rng.randint(0, 9), rng.choice(['delegate', 'delegate', 'both', 1, 1, 2, 3])] for _ in range(rng.randint(2, 8))]))
