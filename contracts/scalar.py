"""Scalar contracts (C01-C06, C23): reward formulas, profit split, margins, desirability, pledge and cost per pool,
command-line validators.  Single source for the proofs and for the runtime contract checks."""
from pyver.spec import Contract, Lemma

H = 'logic.helper:'
RS = 'logic.reward_schemes:'
MSU = '0.000000000000000022'

# ------------------------------------------------------------------ reward formulas
def betas(S, a): return S.get(a.self, 'global_saturation_threshold')
def req_scheme(S, a):
    return [('threshold>0', S.gt(S.get(a.self, 'global_saturation_threshold'), 0)), ('a0>=0', S.ge(S.get(a.self, 'a0'), 0)),
            ('k>0', S.gt(S.get(a.self, '_k'), 0)),
            ('pledge>=0', S.ge(a.pool_pledge, 0)), ('stake>=0', S.ge(a.pool_stake, 0))]
def cardano(S, a0, b, pledge, stake):
    p, s = S.mn(pledge, b), S.mn(stake, b)
    return (S.real(1) / (1 + a0)) * (s + p * a0 * ((s - p * (1 - s / b)) / b))
def simplified(S, a0, b, pledge, stake):
    p, s = S.mn(pledge, b), S.mn(stake, b)
    return (S.real(1) / (1 + a0)) * s * (1 + a0 * p / b)
def flat(S, a0, b, pledge, stake):
    p, s = S.mn(pledge, b), S.mn(stake, b)
    return (S.real(1) / (1 + a0)) * (s + a0 * p)
def curve(S, a0, b, pledge, stake, cf, root):
    pf = S.pow(pledge, S.real(1) / root) * S.pow(b / cf, (root - 1) / S.real(root))
    p, s = S.mn(pf, b), S.mn(stake, b)
    return (S.real(1) / (1 + a0)) * (s + p * a0 * ((s - p * (1 - s / b)) / b))
def cip50_thr(S, a0, b, pledge): return S.mn(a0 * pledge, b)
def cip50(S, a0, b, pledge, stake): return S.mn(stake, cip50_thr(S, a0, b, pledge))
def g(S, a, f): return S.get(a.self, f)
def v_cardano(S, a): return cardano(S, g(S, a, 'a0'), betas(S, a), a.pool_pledge, a.pool_stake)
def v_simpl(S, a): return simplified(S, g(S, a, 'a0'), betas(S, a), a.pool_pledge, a.pool_stake)
def v_flat(S, a): return flat(S, g(S, a, 'a0'), betas(S, a), a.pool_pledge, a.pool_stake)
def v_curve(S, a): return curve(S, g(S, a, 'a0'), betas(S, a), a.pool_pledge, a.pool_stake, g(S, a, 'crossover_factor'), g(S, a, 'curve_root'))
def v_cip50(S, a): return cip50(S, g(S, a, 'a0'), betas(S, a), a.pool_pledge, a.pool_stake)
SCHEMES = {'CardanoRSS': v_cardano, 'SimplifiedRSS': v_simpl, 'FlatPledgeBenefitRSS': v_flat, 'CurvePledgeBenefitRSS': v_curve, 'CIP50RSS': v_cip50}
def rew_params(cls): return {'self': 'rss:' + cls, 'pool_pledge': 'real', 'pool_stake': 'real'}
def req_curve(S, a): return req_scheme(S, a) + [('crossover factor>0', S.gt(g(S, a, 'crossover_factor'), 0)), ('root>=1', S.ge(g(S, a, 'curve_root'), 1))]
FORMULA = {n: Contract('C03.%s' % n, RS + n + '.calculate_pool_reward', rew_params(n), requires=req_curve if n.startswith('Curve') else req_scheme, value=v,
                       title='%s pays its published formula' % n) for n, v in SCHEMES.items()}
C03 = list(FORMULA.values())
for n in ('CardanoRSS', 'SimplifiedRSS', 'FlatPledgeBenefitRSS', 'CurvePledgeBenefitRSS'):
    C03.append(Contract('C03.threshold.' + n, RS + n + '.get_pool_saturation_threshold', {'self': 'rss:' + n, 'pool_pledge': 'real'},
                        value=lambda S, a: betas(S, a), title='saturation threshold of %s is the global one' % n))
C03.append(Contract('C03.threshold.CIP50RSS', RS + 'CIP50RSS.get_pool_saturation_threshold', {'self': 'rss:CIP50RSS', 'pool_pledge': 'real'},
                    value=lambda S, a: cip50_thr(S, g(S, a, 'a0'), betas(S, a), a.pool_pledge), title='CIP-50 threshold is min(a0*pledge, 1/k)'))
def ens_k(S, a, res):
    return [('k is stored as an integer', S.eq(S.new(a.self, '_k'), S.trunc(a.k_value))),
            ('threshold follows k', S.eq(S.new(a.self, 'global_saturation_threshold') * a.k_value, 1))]
C03.append(Contract('C03.k.setter', RS + 'RSS.k.setter', {'self': 'rss:CardanoRSS', 'k_value': 'real'}, ensures=ens_k,
                    raises={'ValueError': lambda S, a: S.eq(a.k_value, 0)}, modifies=[('Rss', '_k'), ('Rss', 'global_saturation_threshold')],
                    title='changing k re-derives the saturation threshold 1/k'))
for n in SCHEMES:
    C03.append(Contract('C03.init.' + n, RS + n + '.__init__', {'self': 'rss:' + n, 'k': 'int', 'a0': 'real'},
                        requires=lambda S, a: [('k!=0', S.Not(S.eq(a.k, 0)))],
                        ensures=lambda S, a, r, n=n: [('k', S.eq(S.new(a.self, '_k'), a.k)), ('a0', S.eq(S.new(a.self, 'a0'), a.a0)),
                                                 ('threshold', S.eq(S.new(a.self, 'global_saturation_threshold') * a.k, 1))] +
                                                (([('crossover factor 8', S.eq(S.new(a.self, 'crossover_factor'), 8)), ('cube root', S.eq(S.new(a.self, 'curve_root'), 3))]) if n.startswith('Curve') else []),
                        modifies=[('Rss', '_k'), ('Rss', 'a0'), ('Rss', 'global_saturation_threshold'), ('Rss', 'crossover_factor'), ('Rss', 'curve_root')],
                        title='%s starts from the given k and a0' % n, skip_rac=True))

# ------------------------------------------------------------------ C01: rewards within the pool's share
def req_c01(S, a): return req_scheme(S, a) + [('pledge<=stake', S.le(a.pool_pledge, a.pool_stake))]
def req_c01_curve(S, a): return req_curve(S, a) + [('pledge<=stake', S.le(a.pool_pledge, a.pool_stake))]
def ens_c01(S, a, r):
    return [('reward >= 0', S.ge(r, 0)), ('reward <= saturation threshold', S.le(r, betas(S, a))), ('reward <= stake', S.le(r, a.pool_stake))]
def ens_c01_curve(S, a, r): return ens_c01(S, a, r)[1:]
def ens_c01_50(S, a, r):
    return ens_c01(S, a, r) + [('reward <= pledge-based threshold', S.le(r, g(S, a, 'a0') * a.pool_pledge))]
C01 = [Contract('C01.' + n, RS + n + '.calculate_pool_reward', rew_params(n), requires=req_c01_curve if n.startswith('Curve') else req_c01,
                ensures=ens_c01_curve if n.startswith('Curve') else ens_c01_50 if n.startswith('CIP50') else ens_c01,
                title='reward of %s is at most min(stake, threshold) and not negative' % n) for n in SCHEMES]

# ------------------------------------------------------------------ C02: monotonicity (relational: two runs of the real method)
def mono(n):
    """lemma over the real method executed twice"""
    curve_ = n.startswith('Curve')
    def req(S, a):
        r = [('threshold>0', S.gt(g(S, a, 'global_saturation_threshold'), 0)), ('a0>=0', S.ge(g(S, a, 'a0'), 0)), ('k>0', S.gt(g(S, a, '_k'), 0)),
             ('0<=pledge', S.ge(a.pledge, 0)), ('pledge<=pledge2', S.le(a.pledge, a.pledge2)),
             ('0<=stake', S.ge(a.stake, 0)), ('stake<=stake2', S.le(a.stake, a.stake2))]
        if curve_: r += [('crossover factor>0', S.gt(g(S, a, 'crossover_factor'), 0)), ('root>=1', S.ge(g(S, a, 'curve_root'), 1))]
        return r
    def ens(S, a):
        R = lambda p, s: S.rss_reward(a.self, p, s)
        T = lambda p: S.rss_threshold(a.self, p)
        b = g(S, a, 'global_saturation_threshold')
        out = [('stake never lowers the reward', S.le(R(a.pledge, a.stake), R(a.pledge, a.stake2))),
               ('stake beyond saturation adds nothing', S.implies(S.xge(a.stake, T(a.pledge)), lambda: S.eq(R(a.pledge, a.stake), R(a.pledge, a.stake2)))),
               ('at saturation pledge never lowers the reward', S.le(R(a.pledge, T(a.pledge)), R(a.pledge2, T(a.pledge2)))) if not curve_ else
               ('at saturation pledge never lowers the reward', S.le(R(a.pledge, T(a.pledge)), R(a.pledge2, T(a.pledge2))))]
        if n != 'CIP50RSS':
            out.append(('without pledge influence (a0 = 0) the pledge is irrelevant', S.implies(S.And(S.xle(g(S, a, "a0"), 0), S.xge(g(S, a, "a0"), 0)), lambda: S.eq(R(a.pledge, a.stake), R(a.pledge2, a.stake)))))
            if not curve_:
                out.append(('pledge beyond saturation adds nothing', S.implies(S.xge(a.pledge, b), lambda: S.eq(R(a.pledge, a.stake), R(a.pledge2, a.stake)))))
        return out
    return Lemma('C02.' + n, {'self': 'rss:' + n, 'pledge': 'real', 'pledge2': 'real', 'stake': 'real', 'stake2': 'real'}, ens, req,
                 title='monotonicity of %s (relational, two executions of the real method)' % n)
C02 = [mono(n) for n in SCHEMES]

# ------------------------------------------------------------------ C04: splitting a pool's profit
def unit(S, x): return S.And(S.ge(x, 0), S.le(x, 1))
SPLIT = {'pool_margin': 'real', 'pool_cost': 'real', 'pool_reward': 'real'}
def v_del(S, a):
    p = a.pool_reward - a.pool_cost
    return S.ite(S.xgt(p, 0), lambda: (1 - a.pool_margin) * a.delegator_stake_fraction * p, lambda: S.real(0))
def v_op(S, a):
    p = a.pool_reward - a.pool_cost
    return S.ite(S.xgt(p, 0), lambda: (a.pool_margin + (1 - a.pool_margin) * a.operator_stake_fraction) * p, lambda: p)
def req_split(S, a):
    f = a.delegator_stake_fraction if hasattr(a, 'delegator_stake_fraction') else a.operator_stake_fraction
    return [('0<=margin<=1', unit(S, a.pool_margin)), ('fraction>=0', S.ge(f, 0)), ('cost>=0', S.ge(a.pool_cost, 0))]
DEL = Contract('C04.delegator_reward', H + 'calculate_delegator_reward_from_pool', {**SPLIT, 'delegator_stake_fraction': 'real'}, requires=req_split,
               value=v_del, ensures=lambda S, a, r: [('no delegator reward is negative', S.ge(r, 0))], title="a delegator's reward is its proportional part of the profit after margin, zero without profit")
OPR = Contract('C04.operator_reward', H + 'calculate_operator_reward_from_pool', {**SPLIT, 'operator_stake_fraction': 'real'}, requires=req_split,
               value=v_op, title="the operator gets margin plus the pledge's part of the rest, and bears every loss")
UT = {'pool_stake': 'real', 'pledge': 'real', 'margin': 'real', 'cost': 'real', 'reward_scheme': 'Rss'}
def req_ut(S, a):
    x = getattr(a, 'stake_allocation', a.pledge)
    return [('0<=margin<=1', unit(S, a.margin)), ('cost>=0', S.ge(a.cost, 0)), ('pledge>=0', S.ge(a.pledge, 0)), ('stake>=pledge', S.ge(a.pool_stake, a.pledge)),
            ('allocation>=0', S.ge(x, 0)), ('allocation within the stake', S.le(x, a.pool_stake))]
class _X:
    def __init__(self, **k): self.__dict__.update(k)
def frac(S, x, s): return S.ite(S.xgt(s, 0), lambda: S.div(x, s), lambda: S.real(0))
def v_uop(S, a):
    return v_op(S, _X(pool_margin=a.margin, pool_cost=a.cost, pool_reward=S.rss_reward(a.reward_scheme, a.pledge, a.pool_stake),
                      operator_stake_fraction=frac(S, a.pledge, a.pool_stake)))
def v_udel(S, a):
    return v_del(S, _X(pool_margin=a.margin, pool_cost=a.cost, pool_reward=S.rss_reward(a.reward_scheme, a.pledge, a.pool_stake),
                       delegator_stake_fraction=frac(S, a.stake_allocation, a.pool_stake)))
UOP = Contract('C04.operator_utility', H + 'calculate_operator_utility_from_pool', UT, requires=req_ut, value=v_uop,
               title="an operator's utility is the split of the reward the scheme pays for the pool's pledge and stake")
UDEL = Contract('C04.delegator_utility', H + 'calculate_delegator_utility_from_pool', {'stake_allocation': 'real', **UT}, requires=req_ut, value=v_udel,
                title="a delegator's utility is the split of the reward the scheme pays for the pool's pledge and stake")
def req_cons(S, a):
    return [('0<=margin<=1', unit(S, a.margin)), ('fractions', S.And(S.ge(a.f1, 0), S.ge(a.f2, 0))), ('everybody has a part', S.eq(a.f1 + a.f2, 1)), ('cost>=0', S.ge(a.cost, 0))]
def ens_cons(S, a):
    x = dict(pool_margin=a.margin, pool_cost=a.cost, pool_reward=a.reward)
    op = v_op(S, _X(operator_stake_fraction=a.f1, **x))
    one = v_del(S, _X(delegator_stake_fraction=S.real(1), **x))
    de = v_del(S, _X(delegator_stake_fraction=a.f2, **x))
    return [('profit is shared out exactly', S.implies(S.xgt(a.reward, a.cost), S.eq(op + de, a.reward - a.cost))),
            ('a loss is borne by the operator alone', S.implies(S.xle(a.reward, a.cost), S.And(S.eq(op, a.reward - a.cost), S.eq(de, 0)))),
            ("delegators' parts add up (reward is linear in the fraction)", S.eq(de, a.f2 * one))]
CONS = Lemma('C04.conservation', {'margin': 'real', 'cost': 'real', 'reward': 'real', 'f1': 'real', 'f2': 'real'}, ens_cons, req_cons,
             title='operator reward + sum of delegator rewards = reward - cost')
C04 = [DEL, OPR, UOP, UDEL, CONS]

# ------------------------------------------------------------------ C05: margins and desirability
def v_margin(S, a):
    pp, t = a.potential_profit, a.target_desirability
    return S.ite(S.And(S.xgt(pp, 0), S.xge(pp, t)), lambda: 1 - S.div(t, pp), lambda: S.real(0))
MARGIN = Contract('C05.margin', H + 'calculate_suitable_margin', {'potential_profit': 'real', 'target_desirability': 'real'},
                  requires=lambda S, a: [('target>=0', S.ge(a.target_desirability, 0))], value=v_margin,
                  ensures=lambda S, a, r: [('0<=margin<=1', unit(S, r)),
                                           ('an attainable target is hit exactly', S.implies(S.And(S.xgt(a.potential_profit, 0), S.xge(a.potential_profit, a.target_desirability)),
                                                                                     S.eq((1 - r) * a.potential_profit, a.target_desirability)))],
                  title='the margin is in [0,1] and makes desirability equal to the target')
def v_des(S, a): return S.mx((1 - a.margin) * a.potential_profit, S.real(0))
DESIR = Contract('C05.desirability', H + 'calculate_pool_desirability', {'margin': 'real', 'potential_profit': 'real'}, value=v_des,
                 title='desirability = max((1-margin)*potential profit, 0)')
DESIRM = Contract('C05.myopic_desirability', H + 'calculate_myopic_pool_desirability', {'margin': 'real', 'current_profit': 'real'},
                  value=lambda S, a: S.mx((1 - a.margin) * a.current_profit, S.real(0)), title='myopic desirability = max((1-margin)*current profit, 0)')
def v_pp(S, a): return S.rss_reward(a.reward_scheme, a.pledge, S.rss_threshold(a.reward_scheme, a.pledge)) - a.cost
def _pp(key): return Contract(key, H + 'calculate_potential_profit', {'reward_scheme': 'Rss', 'pledge': 'real', 'cost': 'real'},
              requires=lambda S, a: [('pledge>=0', S.ge(a.pledge, 0)), ('cost>=0', S.ge(a.cost, 0))], value=v_pp, title='potential profit = reward at saturation - cost')
PP = _pp('C05.potential_profit')
C03.append(_pp('C03.potential_profit'))
PCUR = Contract('C05.current_profit', H + 'calculate_current_profit', {'stake': 'real', 'pledge': 'real', 'cost': 'real', 'reward_scheme': 'Rss'},
                requires=lambda S, a: [('pledge>=0', S.ge(a.pledge, 0)), ('stake>=0', S.ge(a.stake, 0)), ('cost>=0', S.ge(a.cost, 0))],
                value=lambda S, a: S.rss_reward(a.reward_scheme, a.pledge, a.stake) - a.cost, title='current profit = reward at current stake - cost')
C05 = [MARGIN, DESIR, DESIRM, PP, PCUR]

# ------------------------------------------------------------------ C06: pledge and cost per pool
def v_pledge(S, a): return S.mn(S.div(S.real(a.agent_stake), a.num_pools), a.global_saturation_threshold)
PLEDGE = Contract('C06.pledge', H + 'calculate_pledge_per_pool', {'agent_stake': 'real', 'global_saturation_threshold': 'real', 'num_pools': 'int'},
                  requires=lambda S, a: [('stake>=0', S.ge(a.agent_stake, 0)), ('threshold>0', S.gt(a.global_saturation_threshold, 0))],
                  raises={'ValueError': lambda S, a: S.le(a.num_pools, 0) if S.symbolic else a.num_pools <= 0}, value=v_pledge,
                  ensures=lambda S, a, r: [('never above saturation', S.le(r, a.global_saturation_threshold)), ('never negative', S.ge(r, 0)),
                                           ('total pledge within the stake', S.le(r * a.num_pools, a.agent_stake))],
                  title='every pool gets an equal share of the stake as pledge, capped at saturation')
COST = Contract('C06.cost', H + 'calculate_cost_per_pool', {'num_pools': 'int', 'initial_cost': 'real', 'extra_pool_cost_fraction': 'real'},
                requires=lambda S, a: [('num_pools>0', S.ge(a.num_pools, 1)), ('cost>=0', S.ge(a.initial_cost, 0)), ('fraction>=0', S.ge(a.extra_pool_cost_fraction, 0))],
                ensures=lambda S, a, r: [('total cost = first pool + fraction for each further pool',
                                          S.eq(r * a.num_pools, a.initial_cost + (a.num_pools - 1) * a.extra_pool_cost_fraction * a.initial_cost))],
                title='the average cost of t pools adds up to the stated total')
C06 = [PLEDGE, COST]
