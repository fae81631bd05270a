from rac.base import *
from rac.simkit import *
RULE = 'scripted idle/busy rounds, convergence windows, iteration limits and phase counts against a model of the run; real simulations watched round by round'
@check
def scripted(c):
    with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
        kw = dict(n=3, k=[2] * c['phases'] if c['phases'] > 1 else 2, seed=1, stake_distr_source='flat', max_iterations=c['max'] if c.get('maxs') is None else c['maxs'][:max(1, c['phases'])], iterations_after_convergence=c['iac'])
        m = make_sim(kw)
        sch, script = m.schedule, c['script']
        def rnd():
            i = sch.steps
            if not script[i % len(script)]: m.current_step_idle = False
            sch.steps += 1
        sch.step = rnd
        n = dict(w=0, c=0, p=0)
        w0, c0, p0 = m.wrap_up_execution, m.datacollector.collect, m.change_phase
        def w(): n['w'] += 1; w0()
        def cc(x): n['c'] += 1; c0(x)
        def p(): n['p'] += 1; p0()
        m.wrap_up_execution, m.change_phase = w, p
        m.save_model_state_pkl = lambda: None
        m.datacollector.collect = cc
        # the model of a run
        idle, rounds, phase, over, collects, eq = 0, 0, 0, False, 0, []
        pre = c['pre']
        while True:
            stepped = False
            if pre > 0:
                if not m.running: break
                m.step(); pre -= 1; stepped = True
            else: m.run_model()
            # advance the model by one step (or to the end)
            while not over:
                collects += 1
                lim = c['max'] if c.get('maxs') is None else c['maxs'][phase]
                if rounds >= lim: over = True; break
                if script[rounds % len(script)]: idle += 1
                else: idle = 0
                rounds += 1
                if script[(rounds - 1) % len(script)] and idle >= c['iac']:
                    eq.append(rounds - 1 - c['iac'])
                    if phase < c['phases'] - 1: phase += 1
                    else: over = True
                if stepped: break
            need(m.schedule.steps == rounds, '%d rounds performed, should be %d' % (m.schedule.steps, rounds))
            need(m.consecutive_idle_steps == idle, '%d consecutive idle rounds counted, should be %d' % (m.consecutive_idle_steps, idle))
            need(m.has_converged() == (idle >= c['iac']), 'converged: %s with %d idle rounds of %d' % (m.has_converged(), idle, c['iac']))
            need(m.current_phase == phase and n['p'] == phase, 'phase %d, should be %d' % (m.current_phase, phase))
            need(m.running == (not over), 'running is %s, should be %s' % (m.running, not over))
            need(n['w'] == int(over), 'results written %d times' % n['w'])
            need(n['c'] == collects, 'metrics collected %d times, should be %d' % (n['c'], collects))
            need(all(len(v) == collects for v in m.datacollector.model_vars.values()), 'collected %s values' % {k: len(v) for k, v in m.datacollector.model_vars.items()})
            need(list(m.equilibrium_steps) == eq, 'equilibria recorded at %s, should be %s' % (m.equilibrium_steps, eq))
            if over or not stepped: break
class W(Watch):
    def start(self):
        self.m.save_model_state_pkl = lambda: None
        self.wraps = 0; self.idle = 0; o = self.m.wrap_up_execution; self.m.wrap_up_execution = lambda: (self.inc(), o())[1]
    def inc(self): self.wraps += 1
    def before_round(self): self.any = False; self.s0 = self.m.schedule.steps
    def moved(self, a): self.any = True
    def after_round(self):
        m = self.m
        if m.schedule.steps == self.s0:
            need(self.s0 >= m.max_iterations and not m.running, 'a step without a round before the limit'); return
        need(m.schedule.steps == self.s0 + 1, 'a step performed %d rounds' % (m.schedule.steps - self.s0))
        self.idle = 0 if self.any else self.idle + 1
        need(m.consecutive_idle_steps == self.idle, '%d idle rounds counted, should be %d' % (m.consecutive_idle_steps, self.idle))
        need(m.has_converged() == (self.idle >= m.iterations_after_convergence), 'has_converged')
    def end(self): need(self.wraps == int(not self.m.running), 'results written %d times' % self.wraps)
@check
def in_sim(kw): run_watched(kw, W)
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 4 == 0: ctx.run('in_sim', gen_sim(rng, nmax=8))
        else:
            mx = rng.choice([1, 2, 3, 5, 8, 12])
            ph = rng.choice([1, 1, 2, 3])
            ctx.run('scripted', dict(phases=ph, max=mx, maxs=[rng.choice([1, 2, 3, 5, 8, 12, 30]) for _ in range(ph)] if ph > 1 and rng.random() < .5 else None, iac=rng.choice([1, 2, 3, 5, mx]), script=[rng.random() < rng.choice([.5, .8, .95]) for _ in range(rng.randint(1, 12))], pre=rng.choice([0, 0, 2, 5, 20])))
