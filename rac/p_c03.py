from rac.base import *
from rac.scalar import *
from rac.simkit import *
RULE = 'scheme numbers 0..4, k sequences (whole and fractional, 0), a0, pledge and stake of many magnitudes incl. the threshold itself; plus simulations with k phases'
@check
def mapping(c):
    import logic.reward_schemes as R
    import logic.helper as h
    need(sorted(R.RSS_MAPPING) == [0, 1, 2, 3, 4], 'schemes are numbered %s' % sorted(R.RSS_MAPPING))
    r = R.RSS_MAPPING[c['s']](c['ks'][0] or 1, c['a0'])
    for k in c['ks']:
        if k == 0:
            old = (r.k, r.global_saturation_threshold)
            try: r.k = 0
            except ValueError: pass
            else: raise Fail('k = 0 is accepted')
            need((r.k, r.global_saturation_threshold) == old, 'a refused k changed the scheme')
            continue
        r.k = k
        need(r.k == int(k), 'k is %r after setting it to %r' % (r.k, k))
        need(close(r.global_saturation_threshold, 1 / k), 'threshold %r for k = %r' % (r.global_saturation_threshold, k))
        for pl, st in c['pts']:
            for pledge, stake in ((pl, st), (pl / k, st / k), (1 / k, st / k)):
                got, want = r.calculate_pool_reward(pledge, stake), o_reward(c['s'], 1 / k, c['a0'], pledge, stake)
                need(close(got, want, 1e-9, 1e-13), 'scheme %d with k=%r, a0=%r pays %r for pledge %r and stake %r, the formula says %r' % (c['s'], k, c['a0'], got, pledge, stake, want))
                need(h.calculate_pool_reward(reward_scheme=r, pool_stake=stake, pool_pledge=pledge) == got, 'helper reward differs')
                pp, wp = h.calculate_potential_profit(reward_scheme=r, pledge=pledge, cost=c['cost']), o_pp(c['s'], 1 / k, c['a0'], pledge, c['cost'])
                need(close(pp, wp, 1e-9, 1e-13), 'potential profit %r, should be %r' % (pp, wp))
class W(Watch):
    def chk(self):
        m, kw = self.m, self.kw
        need(type(m.reward_scheme).__name__ == SCHEME[kw['reward_scheme']], 'scheme %d gives %s' % (kw['reward_scheme'], type(m.reward_scheme).__name__))
        f = kw.get('inactive_stake_fraction', 0) if kw.get('inactive_stake_fraction_known') else 0
        ks = kw['k'] if isinstance(kw['k'], list) else [kw['k']]
        k = ks[min(m.current_phase, len(ks) - 1)] / (1 - f)
        need(close(m.reward_scheme.global_saturation_threshold, 1 / k), 'phase %d: threshold %r, k %r' % (m.current_phase, m.reward_scheme.global_saturation_threshold, k))
        need(m.reward_scheme.k == int(k), 'phase %d: k is %r, should be %r' % (m.current_phase, m.reward_scheme.k, int(k)))
        for p, s in ((.01, .05), (.3, .2), (1 / k, 1.0), (.5 / k, .7 / k), (2 / k, 3 / k)):
            e = econ(m)
            need(close(m.reward_scheme.calculate_pool_reward(p, s), o_reward(kw['reward_scheme'], e.b, e.a0, p, s), 1e-9, 1e-13), 'reward in a simulation with scheme %d' % kw['reward_scheme'])
    def start(self): self.chk()
    def phase(self, st): self.chk()
@check
def in_sim(kw):
    W.kw = kw
    run_watched(kw, W)
def run(ctx):
    rng = ctx.rng
    run_scalars(ctx, 'C03', .25)
    run_i = 0
    while ctx.more():
        if run_i % 40 == 39:
            kw = gen_sim(rng, phases=.7, steps=6, nmax=8); kw['reward_scheme'] = rng.randint(0, 4); kw['max_iterations'] = min(4, kw['max_iterations'])
            ctx.run('in_sim', kw)
        else:
            ctx.run('mapping', dict(s=rng.randint(0, 4), a0=real(rng), cost=real(rng), ks=[rng.choice([1, 2, 3, 10, 100, 0, 7, rng.uniform(1, 50)]) for _ in range(rng.randint(1, 4))],
                                    pts=[[real(rng), real(rng)] for _ in range(4)]))
        run_i += 1
def candidates(ctx, cands): scalar_candidates(ctx, 'C03', cands)
