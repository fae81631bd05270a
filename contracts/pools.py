"""C05, C06 on the objects: the pool's own bookkeeping of profit and desirability, the operator's pledge and cost."""
import z3
from pyver.spec import Contract
from pyver.scan import Scan
from pyver.vals import *
from .scalar import v_pledge, v_pp, _X
P = 'logic.pool:Pool.'
SIM = 'logic.sim:Simulation.'
ST = 'logic.stakeholder:Stakeholder.'
RS = 'logic.reward_schemes:'
DR = 'D[int,real]'
CLS = ('NonMyopicStakeholder', 'MyopicStakeholder')
def new_des(S, p): return S.mx((1 - S.new(p, '_margin')) * S.new(p, 'potential_profit'), S.real(0))
def fresh(S, p, rs):
    return [('potential profit reflects pledge, cost and scheme', S.new(p, 'potential_profit') == v_pp(S, _X(reward_scheme=rs, pledge=S.new(p, 'pledge'), cost=S.new(p, 'cost')))),
            ('desirability reflects margin and potential profit', S.new(p, 'desirability') == new_des(S, p))]
def ens_pool(S, a, r):
    p = a.self; n = lambda f: S.new(p, f)
    has, val, K, V = S.ip.dget(n('delegators'))
    return [('the pool is what was asked for', z3.And(n('id') == a.pool_id, n('cost') == a.cost, n('pledge') == a.pledge, n('owner') == a.owner, n('_margin') == a.margin, n('is_private') == a.is_private)),
            ('its stake is its pledge', n('stake') == a.pledge), ('it has no delegators', S.forall(['int'], lambda k: z3.Not(z3.Select(has, k)), pats=lambda k: [z3.Select(has, k)])),
            ('a ledger of its own', z3.Not(S.ip.alloc0(DR)(n('delegators').term)))] + fresh(S, p, a.reward_scheme)
req_p = lambda S, a: [('pledge>=0', S.get(a.self, 'pledge') >= 0), ('cost>=0', S.get(a.self, 'cost') >= 0)]
ALL = ['id', 'cost', 'pledge', 'stake', 'owner', 'is_private', 'delegators', 'potential_profit', '_margin', 'desirability']
def only(S, p, *fields):
    """nothing else about this pool changes"""
    t = lambda x: x.term if isinstance(x, Obj) else x
    return ('nothing else about the pool changes', z3.And(*[t(S.new(p, f)) == t(S.get(p, f)) for f in ALL if f not in fields]))
POOL = [Contract('C05.pool', P + '__init__', {'self': 'Pool', 'pool_id': 'int', 'cost': 'real', 'pledge': 'real', 'owner': 'int', 'reward_scheme': 'Rss', 'margin': 'real', 'is_private': 'bool'},
                 requires=lambda S, a: [('pledge>=0', a.pledge >= 0), ('cost>=0', a.cost >= 0)], ensures=ens_pool, modifies=[('Pool', '*')], callmode='never', title='a new pool has fresh profit and desirability'),
        Contract('C05.set_margin', P + 'margin.setter', {'self': 'Pool', 'm': 'real'}, ensures=lambda S, a, r: [('the margin is set', S.new(a.self, '_margin') == a.m), ('desirability follows', S.new(a.self, 'desirability') == new_des(S, a.self)), only(S, a.self, '_margin', 'desirability')],
                 modifies=[('Pool', '_margin'), ('Pool', 'desirability')], callmode='never', title='setting the margin refreshes desirability'),
        Contract('C05.get_margin', P + 'margin', {'self': 'Pool'}, value=lambda S, a: S.new(a.self, '_margin'), callmode='never', title='the margin read is the margin set'),
        Contract('C05.set_profit', P + 'set_profit', {'self': 'Pool', 'reward_scheme': 'Rss'}, requires=req_p, ensures=lambda S, a, r: [fresh(S, a.self, a.reward_scheme)[0], only(S, a.self, 'potential_profit')],
                 modifies=[('Pool', 'potential_profit')], callmode='never', title='potential profit is recomputed from pledge, cost and scheme'),
        Contract('C05.set_desirability', P + 'set_desirability', {'self': 'Pool'}, ensures=lambda S, a, r: [fresh(S, a.self, None)[1] if False else ('desirability reflects margin and potential profit', S.new(a.self, 'desirability') == new_des(S, a.self)), only(S, a.self, 'desirability')],
                 modifies=[('Pool', 'desirability')], callmode='never', title='desirability is recomputed from margin and potential profit'),
        Contract('C05.update_delegation', P + 'update_delegation', {'self': 'Pool', 'new_delegation': 'real', 'delegator_id': 'int'},
                 requires=lambda S, a: [('ledger', S.get(a.self, 'delegators').term != null_of(DR))], ensures=lambda S, a, r: [only(S, a.self, 'stake')], modifies=[('Pool', 'stake'), (DR, '*')], callmode='never',
                 title='delegations leave pledge, cost, margin, profit and desirability alone'),
        Scan('C05.frame', writes={'pledge': [P + '__init__', ST + 'find_operator_move'], 'margin': [P + '__init__', ST + 'find_operator_move'], '_margin': [P + 'margin.setter'],
                                  'potential_profit': [P + 'set_profit'], 'desirability': [P + 'set_desirability'],
                                  '_k': [RS + 'RSS.k.setter'], 'k': [RS + 'RSS.__init__', SIM + '__init__', SIM + 'revise_beliefs'], 'a0': [RS + 'RSS.__init__'], 'global_saturation_threshold': [RS + 'RSS.k.setter'],
                                  'reward_scheme': [SIM + '__init__']},
             calls={'revise_beliefs': []}, dynamic=[SIM + '__init__', SIM + 'change_phase'],
             title='pledge, margin, profit, desirability and the scheme parameters are written nowhere else, the latter only at the start and by a phase change (C15)')]
def req_ag(S, a):
    m = S.get(a.self, 'model'); rs = S.get(m, 'reward_scheme')
    return [('model', m.term != null_of('Model')), ('scheme', rs.term != null_of('Rss')), ('threshold>0', S.get(rs, 'global_saturation_threshold') > 0), ('stake>=0', S.get(a.self, 'stake') >= 0)]
def v_pl(S, a):
    return v_pledge(S, _X(agent_stake=S.get(a.self, 'stake'), global_saturation_threshold=S.get(S.get(S.get(a.self, 'model'), 'reward_scheme'), 'global_saturation_threshold'), num_pools=a.num_pools))
def ens_pl(S, a, r): return [('total pledge within the stake', zr(r) * zr(a.num_pools) <= S.get(a.self, 'stake')), ('never negative', zr(r) >= 0)]
def ens_cost(S, a, r):
    c, ph = S.get(a.self, 'cost'), S.get(S.get(a.self, 'model'), 'extra_pool_cost_fraction')
    return [('the costs of all pools add up', zr(r) * zr(a.num_pools) == c + (zr(a.num_pools) - 1) * ph * c), ('never negative', zr(r) >= 0)]
AGENT = [Contract('C06.own_pledge.' + c, 'logic.stakeholder_profiles:%s.determine_pledge_per_pool' % c, {'self': 'agent:' + c, 'num_pools': 'int'}, requires=req_ag,
                  raises={'ValueError': lambda S, a: S.le(a.num_pools, 0)}, value=v_pl, ensures=ens_pl, callmode='never', title="an operator's pledge per pool, from its stake and the current threshold (%s)" % c) for c in CLS] + \
        [Contract('C06.own_cost.' + c, 'logic.stakeholder_profiles:%s.calculate_cost_per_pool' % c, {'self': 'agent:' + c, 'num_pools': 'int'},
                  requires=lambda S, a: req_ag(S, a) + [('at least one pool', a.num_pools >= 1), ('cost>=0', S.get(a.self, 'cost') >= 0), ('fraction>=0', S.get(S.get(a.self, 'model'), 'extra_pool_cost_fraction') >= 0)],
                  ensures=ens_cost, callmode='never', title="an operator's average cost per pool, from its cost and the current fraction (%s)" % c) for c in CLS]
