"""C14: rounds, convergence and the end of a run."""
import z3
from pyver.spec import Contract
from pyver.loops import LoopInv
from pyver.vals import *
SIM = 'logic.sim:Simulation.'
GHOST = ['$collects', '$wraps', '$rounds', '$phases']
IDLE = '$idle'          # ghost: was the last round idle?
def bump(ip, m, f, by=1): ip.setfield(m, f, ip.getfield(m, f) + by)
def me(env): return list(env.values())[0]
def s_round(ip, env, w):
    """a round of the scheduler (mesa's schedulers: library; the semi-simultaneous one: C16): one step, and the round is
    marked non-idle if (and only if) some agent moved (C07)"""
    s = me(env); m = ip.ghost['model']
    ip.oblige('a round starts marked idle', ip.getfield(m, 'current_step_idle'))
    bump(ip, s, 'steps'); bump(ip, s, 'time'); bump(ip, m, '$rounds')
    idle = ip.fresh('nobody_moved', z3.BoolSort())
    ip.setfield(m, IDLE, idle)
    ip.setfield(m, 'current_step_idle', idle)
def s_phase(ip, env, w):
    """C15: the next phase; parameters may change, the limit among them"""
    m = me(env)
    bump(ip, m, 'current_phase'); bump(ip, m, '$phases')
    mx = ip.fresh('new_max', z3.IntSort()); ip.assume(mx >= 0)
    ip.setfield(m, 'max_iterations', mx)
def s_wrap(ip, env, w):
    m = me(env)
    ip.setfield(m, 'running', False); bump(ip, m, '$wraps')
def collect(ip, o, a, kw, w):
    m = ip.ghost['model']
    bump(ip, m, '$collects')
def setup(ip, S, a): ip.ghost['model'] = a.self
def req_step(S, a):
    m = a.self; g = lambda f: S.new(m, f)
    return [('schedule', S.new(m, 'schedule').term != null_of('Sched')), ('running', g('running')), ('idle flag', g('current_step_idle')),
            ('limit', g('max_iterations') >= 0), ('window', g('iterations_after_convergence') >= 1),
            ('phases', z3.And(g('current_phase') >= 0, g('current_phase') < g('total_phases'))),
            ('counts', z3.And(g('consecutive_idle_steps') >= 0, S.new(S.new(m, 'schedule'), 'steps') >= 0))]
def eq_list(S, m, when):
    ip = S.ip
    l = when(m, 'equilibrium_steps')
    return l
def ens_step(S, a, r):
    m = a.self; g, n = (lambda f: S.get(m, f)), (lambda f: S.new(m, f))
    s0, s1 = S.get(S.get(m, 'schedule'), 'steps'), S.new(S.get(m, 'schedule'), 'steps')
    limit = s0 >= g('max_iterations')
    idle = n(IDLE)
    cons = z3.If(idle, g('consecutive_idle_steps') + 1, 0)
    conv = z3.And(z3.Not(limit), idle, cons >= g('iterations_after_convergence'))
    last = g('current_phase') >= g('total_phases') - 1
    d = lambda f: n(f) - g(f)
    ends = z3.Or(limit, z3.And(conv, last))
    return [('metrics are collected once', d('$collects') == 1),
            ('a round is performed unless the limit is reached', z3.And(d('$rounds') == z3.If(limit, 0, 1), s1 - s0 == z3.If(limit, 0, 1))),
            ('idle rounds are counted', z3.Implies(z3.Not(limit), n('consecutive_idle_steps') == cons)),
            ('the run ends exactly on convergence in the last phase or at the limit', n('running') == z3.Not(ends)),
            ('results are written exactly when the run ends', d('$wraps') == z3.If(ends, 1, 0)),
            ('the next phase starts exactly on convergence before the last phase', z3.And(d('$phases') == z3.If(z3.And(conv, z3.Not(last)), 1, 0), d('current_phase') == d('$phases'))),
            ('the limit changes only with the phase', z3.And(n('max_iterations') >= 0, z3.Implies(d('$phases') == 0, d('max_iterations') == 0))),
            ('the next round starts marked idle', n('current_step_idle')),
            ('counts stay sane', z3.And(n('consecutive_idle_steps') >= 0))]
MODS = [('Model', f) for f in GHOST + [IDLE, 'running', 'current_phase', 'max_iterations', 'consecutive_idle_steps', 'current_step_idle']] + \
       [('Sched', 'steps'), ('Sched', 'time'), ('L[int]', 'len'), ('L[int]', 'at'), ('L[int]', 'off')]
STEP = Contract('C14.step', SIM + 'step', {'self': 'Model'}, requires=req_step, ensures=ens_step, modifies=MODS, setup=setup,
                title='one step: collect, stop at the limit, else a round, idle count, convergence, phases')
def ens_rec(S, a, r):
    m = a.self; ip = S.ip
    l0 = S.get(m, 'equilibrium_steps')
    n0, n1 = S.old(lambda: ip.getfield(l0, 'len')), ip.getfield(l0, 'len')
    s0 = S.get(S.get(m, 'schedule'), 'steps')
    idle = S.new(m, IDLE)
    conv = z3.And(s0 < S.get(m, 'max_iterations'), idle, S.get(m, 'consecutive_idle_steps') + 1 >= S.get(m, 'iterations_after_convergence'))
    at, off = z3.Select(ip.harr('L[int]', 'at'), l0.term), z3.Select(ip.harr('L[int]', 'off'), l0.term)
    return [('the list is kept', S.new(m, 'equilibrium_steps').term == l0.term),
            ('an equilibrium is recorded exactly on convergence', n1 == n0 + z3.If(conv, 1, 0)),
            ('its round is the last busy one', z3.Implies(conv, z3.Select(at, off + n0) == s0 - S.get(m, 'iterations_after_convergence')))]
C14 = [STEP,
       Contract('C14.step.equilibria', SIM + 'step', {'self': 'Model'}, requires=lambda S, a: req_step(S, a) + [('list', z3.And(S.new(a.self, 'equilibrium_steps').term != null_of('L[int]'), S.ip.getfield(S.new(a.self, 'equilibrium_steps'), 'len') >= 0))],
                ensures=ens_rec, modifies=MODS, setup=setup, title='equilibria are recorded exactly on convergence', callmode='never'),
       Contract('C14.has_converged', SIM + 'has_converged', {'self': 'Model'}, value=lambda S, a: S.new(a.self, 'consecutive_idle_steps') >= S.new(a.self, 'iterations_after_convergence'), callmode='never',
                title='converged exactly when the idle rounds reach the configured number')]
def inv_run(S, a, L):
    m = a.self; n = lambda f: S.new(m, f); g = lambda f: S.get(m, f)
    st = S.new(S.new(m, 'schedule'), 'steps')
    return [('results written exactly if the run is over', n('$wraps') - g('$wraps') == z3.If(n('running'), 0, 1)), ('schedule', S.new(m, 'schedule').term == S.get(m, 'schedule').term), ('schedule!', S.new(m, 'schedule').term != null_of('Sched')),
            ('idle flag', n('current_step_idle')), ('phases', z3.And(n('current_phase') >= 0, n('total_phases') == g('total_phases'), n('current_phase') < n('total_phases'))),
            ('window', z3.And(n('iterations_after_convergence') >= 1, n('iterations_after_convergence') == g('iterations_after_convergence'))),
            ('counts', z3.And(n('consecutive_idle_steps') >= 0, st >= 0, n('max_iterations') >= 0)),
            ('metrics once per round, plus once at the limit', z3.And(n('$collects') - g('$collects') >= n('$rounds') - g('$rounds'), n('$collects') - g('$collects') <= n('$rounds') - g('$rounds') + z3.If(n('running'), 0, 1))),
            ('rounds are counted', st - S.get(S.get(m, 'schedule'), 'steps') == n('$rounds') - g('$rounds'))]
def ens_run(S, a, r):
    m = a.self; n = lambda f: S.new(m, f); g = lambda f: S.get(m, f)
    return [('the run is over', z3.Not(n('running'))), ('its results are written exactly once', n('$wraps') - g('$wraps') == z3.If(g('running'), 1, 0))]
def dec(S, a, L):
    m = a.self; n = lambda f: S.new(m, f)
    st = S.new(S.new(m, 'schedule'), 'steps')
    return (n('total_phases') - n('current_phase'), z3.If(n('max_iterations') > st, n('max_iterations') - st, 0) + z3.If(n('running'), 1, 0))
def req_run(S, a): return [(x, c) for x, c in req_step(S, a) if x != 'running'] + [('started', S.new(a.self, 'running'))]
C14.append(Contract('C14.run_model', SIM + 'run_model', {'self': 'Model'}, requires=req_run, ensures=ens_run, modifies=MODS + [('Model', 'start_time')], setup=setup,
                    loops={'main': LoopInv(SIM + 'run_model', 0, inv_run, kind='while', decreases=dec)}, title='a run ends, and its results are written exactly once'))
EXPORTS = {'export_pools_file': '$w_pools', 'export_agents_file': '$w_agents', 'export_metrics_file': '$w_metrics', 'export_final_state_desc_file': '$w_final',
           'append_to_experiment_tracker': '$w_tracker', 'save_model_state_pkl': '$w_pickle', 'export_graphs': '$w_graphs'}
def cnt(f):
    def st(ip, env, w): bump(ip, me(env), f)
    return st
def ens_wrap(S, a, r):
    m = a.self; d = lambda f: S.new(m, f) - S.get(m, f)
    return [('the run is over', z3.Not(S.new(m, 'running')))] + [(k + ' once', d(f) == (1 if k != 'export_graphs' else z3.If(S.get(m, 'generate_graphs'), 1, 0))) for k, f in EXPORTS.items()]
C14.append(Contract('C14.wrap_up', SIM + 'wrap_up_execution', {'self': 'Model'}, ensures=ens_wrap, modifies=[('Model', 'running')] + [('Model', f) for f in EXPORTS.values()], callmode='never',
                    config=lambda w: [w.stubs.pop(('Model', 'wrap_up_execution'), None)] + [w.stubs.__setitem__(('Model', k), cnt(f)) for k, f in EXPORTS.items()],
                    title='the end of a run writes every result file once'))
def cfg(w):
    w.schema['Model'].update({f: 'int' for f in GHOST + list(EXPORTS.values())}); w.schema['Model'][IDLE] = 'bool'
    w.stubs[('Sched', 'step')] = s_round
    w.stubs[('Model', 'change_phase')] = s_phase
    w.stubs[('Model', 'wrap_up_execution')] = s_wrap
    w.opq_methods['collect'] = collect
CONFIG = {'C14': cfg}
