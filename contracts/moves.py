"""C07: when an agent changes its strategy, and to what."""
import z3
from pyver.spec import Contract
from pyver.vals import *
PR = 'logic.stakeholder_profiles:'
R, B = z3.RealSort(), z3.BoolSort()
ST = 'logic.stakeholder:Stakeholder.'
SIMULT = lambda ip, m: z3.Const('order_is_simultaneous', B)

# the parts of a decision that other properties describe (C11 utilities, C08 delegation, C27 pool operation) enter as
# arbitrary values; evaluating them changes nothing the decision depends on (their own contracts say so: C08, C11, C27)
EU = z3.Function('EXPECTED_UTILITY', fam_sort('Strategy'), R)
CU = z3.Const('CURRENT_UTILITY', R)
OPTILITY = z3.Const('OPERATOR_UTILITY', R)
DS = z3.Const('DELEGATION_STRATEGY', fam_sort('Strategy'))
OS = z3.Const('OPERATION_STRATEGY', fam_sort('Strategy'))
def strat(ip, t, nonnull): return Obj('Strategy', t, ip.world.exact_class('Strategy'), nonnull)
def s_eu(ip, env, w):
    s = list(env.values())[1]
    if not (isinstance(s, Obj) and s.fam == 'Strategy'): raise OutOfSubset('utility of %r' % (s,))
    s = ip.nonnull(s, w)
    return EU(s.term)
def s_ds(ip, env, w):
    v = list(env.values())
    if len(v) > 1 and v[1] is not None: raise OutOfSubset('delegation move for a part of the stake')
    ip.assume(DS != null_of('Strategy'))
    return strat(ip, DS, True)
def exec_(ip, env, w):
    """executing a move: replaces the strategy by the new one and clears it (C09 proves the rest); counted"""
    a = list(env.values())[0]
    ip.setfield(a, '$moves', ip.getfield(a, '$moves') + 1)
    ip.setfield(a, 'strategy', ip.getfield(a, 'new_strategy'))
    ip.setfield(a, 'new_strategy', None)
def s_update(ip, env, w):
    a = list(env.values())[0]
    ip.setfield(a, '$updates', ip.getfield(a, '$updates') + 1)
    ip.setfield(a, 'new_strategy', strat(ip, z3.Const('PLANNED', fam_sort('Strategy')), False))

def ens_update(S, a, r):
    ag = a.self; m = S.get(ag, 'model')
    rel, ab = S.get(m, 'relative_utility_threshold'), S.get(m, 'absolute_utility_threshold')
    cur = S.get(ag, 'strategy')
    ceu = EU(cur.term)
    bars = [(1 + rel) * CU, CU + ab, (1 + rel) * ceu, ceu + ab]
    above = lambda u: z3.And(*[u > b for b in bars])
    new = S.new(ag, 'new_strategy').term
    NULL = null_of('Strategy')
    du, hasop = EU(DS), OS != NULL
    ok_op = z3.And(hasop, above(OPTILITY))
    return [('keeps its strategy unless an option beats all four bars', z3.Implies(z3.And(z3.Not(above(du)), z3.Not(ok_op)), new == NULL)),
            ('moves if an option beats all four bars', z3.Implies(z3.Or(above(du), ok_op), new != NULL)),
            ('operates pools only if that is better than delegating', z3.Implies(z3.And(new == OS, OS != DS, new != NULL), z3.And(ok_op, OPTILITY > du))),
            ('delegates only if that is at least as good as operating pools', z3.Implies(z3.And(new == DS, OS != DS), z3.And(above(du), z3.Or(z3.Not(hasop), du >= OPTILITY)))),
            ('the new strategy is one of the options', z3.Or(new == NULL, new == DS, new == OS))]
def req_update(S, a):
    m = S.get(a.self, 'model')
    return [('model', m.term != null_of('Model')), ('strategy', S.get(a.self, 'strategy').term != null_of('Strategy')),
            ('rel>=0', S.get(m, 'relative_utility_threshold') >= 0), ('abs>=0', S.get(m, 'absolute_utility_threshold') >= 0),
            ('strategies differ', DS != OS)]
C07 = [Contract('C07.update_strategy.' + c, PR + c + '.update_strategy', {'self': 'agent:' + c}, requires=req_update, ensures=ens_update,
                modifies=[('Agent', 'new_strategy')], title='an agent (%s) moves exactly when an option beats all four bars, and takes the best' % c)
       for c in ('NonMyopicStakeholder', 'MyopicStakeholder')]
C07 += [Contract('C07.abstainer.update', 'logic.stakeholder_profiles:Abstainer.update_strategy', {'self': 'agent:Abstainer'}, modifies=[],
                 ensures=lambda S, a, r: [('plans nothing', S.new(a.self, 'new_strategy').term == S.get(a.self, 'new_strategy').term)], title='an abstainer never plans a move')]
def ens_advance(S, a, r):
    had = S.get(a.self, 'new_strategy').term != null_of('Strategy')
    m = S.get(a.self, 'model')
    return [('a planned move is executed once', z3.Implies(had, S.new(a.self, '$moves') == S.get(a.self, '$moves') + 1)),
            ('without a planned move nothing happens', z3.Implies(z3.Not(had), z3.And(S.new(a.self, '$moves') == S.get(a.self, '$moves'), S.new(a.self, 'strategy').term == S.get(a.self, 'strategy').term,
                                                                              S.new(m, 'current_step_idle') == S.get(m, 'current_step_idle')))),
            ('a move makes the round non-idle', z3.Implies(had, z3.Not(S.new(m, 'current_step_idle'))))]
MM = lambda S, a: [('model', S.get(a.self, 'model').term != null_of('Model'))]
AD_MOD = [('Agent', '$moves'), ('Agent', 'strategy'), ('Agent', 'new_strategy'), ('Model', 'current_step_idle')]
CLS = ('NonMyopicStakeholder', 'MyopicStakeholder', 'Abstainer')
C07 += [Contract('C07.advance.' + c, PR + c + '.advance', {'self': 'agent:' + c}, requires=MM, ensures=ens_advance, modifies=AD_MOD, title='a planned move is executed exactly once (%s)' % c) for c in CLS]
def s_adv(ip, env, w):
    a = list(env.values())[0]
    ip.setfield(a, '$advances', ip.getfield(a, '$advances') + 1)
    # ghost: the decision of this activation must come first
    ip.setfield(a, '$order', z3.And(ip.getfield(a, '$order'), ip.getfield(a, '$updates') > 0))
def ens_step(S, a, r):
    m = S.get(a.self, 'model')
    sim = SIM(S, m)
    g = lambda f: S.new(a.self, f) - S.get(a.self, f)
    return [('decides exactly once', g('$updates') == 1), ('acts at once unless moves are simultaneous', g('$advances') == z3.If(sim, 0, 1)),
            ('decides before it acts', S.new(a.self, '$order'))]
def SIM(S, m):
    """does the name of the activation order contain "simultaneous"? """
    ip = S.ip
    return zb(ip.truth(ip.world.ext.compare(ip, 'In', 'simultaneous', ip.call(ip.getattr(S.get(m, 'agent_activation_order'), 'lower', None), [], {}), 'spec')))
C07 += [Contract('C07.step.' + c, PR + c + '.step', {'self': 'agent:' + c}, requires=lambda S, a: MM(S, a) + [('fresh', z3.And(S.get(a.self, '$updates') == 0, S.get(a.self, '$order')))],
                 ensures=ens_step, check_frame=False, title='an activated agent decides once, and acts at once unless moves are simultaneous (%s)' % c,
                 stubs={('Agent', 'update_strategy'): s_update, ('Agent', 'advance'): s_adv}) for c in CLS]

def cfg(w):
    w.schema['Agent'].update({'$moves': 'int', '$updates': 'int', '$advances': 'int', '$order': 'bool'})
    w.stubs[('Agent', 'calculate_current_utility')] = lambda ip, env, wh: CU
    w.stubs[('Agent', 'calculate_expected_utility')] = s_eu
    w.stubs[('Agent', 'find_delegation_move')] = s_ds
    w.stubs[('Agent', 'choose_pool_strategy')] = lambda ip, env, wh: (OPTILITY, strat(ip, OS, False))
    w.stubs[('Agent', 'execute_strategy')] = exec_
CONFIG = {'C07': cfg}
