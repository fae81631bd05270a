from rac.base import *
from rac.simkit import *
RULE = 'ids of all pools planned and opened in simulations under all activation orders, with step() and run_model() mixed'
class W(Watch):
    def start(self): self.seen, self.top, self.opened, self.open_ids, self.owner = set(), 0, set(), set(), {}
    def planned(self, a):
        s = a.new_strategy
        if s is None: return
        old, new = set(a.strategy.owned_pools), set(s.owned_pools)
        need(len(old & new) == min(len(old), len(new)), 'agent %s goes from pools %s to %s' % (a.unique_id, sorted(old), sorted(new)))
        for pid, p in s.owned_pools.items(): need(p.id == pid, 'pool %s is filed under %s' % (p.id, pid))
    def draft(self, a, old, r):
        fresh = sorted(set(r.owned_pools) - old)
        if fresh:
            need(fresh[0] > self.top, 'agent %s plans pool %s, but id %s was given out before' % (a.unique_id, fresh[0], self.top))
            self.top = fresh[-1]
    def after_round(self):
        now = set(self.m.pools)
        for pid in now - self.open_ids:
            need(pid not in self.opened, 'id %s of a closed pool is in use again' % pid)
        for pid, p in self.m.pools.items():
            need(self.owner.setdefault(pid, p.owner) == p.owner, 'pool %s changed hands' % pid)
        self.opened |= now; self.open_ids = now
        self.top = max([self.top] + list(now))
    def phase(self, st): pass
@check
def in_sim(kw): run_watched(kw, W)
@check
def mixed(c):
    kw = c['kw']
    with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
        m = make_sim(kw); w = W(m)
        with hooks(after_plan=lambda a: a.model is m and w.planned(a), after_draft=lambda a, old, r: a.model is m and w.draft(a, old, r)):
            for _ in range(c['pre']):
                if m.running: m.step(); w.after_round()
            m.run_model(); w.after_round()
@check
def seq(c):
    def f(m):
        last = 0
        seen = set(m.pools)
        last = max(seen, default=0)
        ags = [a for a in m.get_agents_list() if a.strategy is not None]
        for i, t in c['seq']:
            if not ags or t > m.reward_scheme.k: continue
            a = ags[i % len(ags)]
            s = a.find_operator_move(t, a.determine_pools_to_keep(t), [0] * t)
            for pid in sorted(set(s.owned_pools) - set(a.strategy.owned_pools)):
                need(pid > last, 'planned pool gets id %s after %s' % (pid, last)); last = pid
            x = m.get_next_pool_id()
            need(x > last, 'id %s after %s' % (x, last)); last = x
    in_world(c['w'], f)
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 3 == 0: ctx.run('mixed', dict(kw=gen_sim(rng, nmax=12), pre=rng.randint(0, 3)))
        elif i % 3 == 1: ctx.run('in_sim', gen_sim(rng, nmax=12))
        else: ctx.run('seq', dict(w=gen_world(rng), seq=[[rng.randint(0, 9), rng.randint(1, 3)] for _ in range(6)]))
