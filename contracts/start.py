"""How a simulation starts: its first parameters and the phase schedule (C15), its rankings (C10), its sources of randomness (C21)."""
import z3
from pyver.spec import Contract
from pyver import files
from pyver.vals import *
from . import folders
from .folders import SIM, H, KEYS, Stop, s_read, s_write, s_name, exists_raise, init_args
from .phase import KINDS, fields, trunc, MK
from .rankings import PO, And, Or, Not, Imp, sel, B
R, I = z3.RealSort(), z3.IntSort()
T = {'n': 'int', 'inactive_stake_fraction': 'real', 'inactive_stake_fraction_known': 'bool', 'cost_min': 'real', 'cost_max': 'real', 'pareto_param': 'real', 'iterations_after_convergence': 'int', 'stake_distr_source': 'opaque', 'reward_scheme': ('const', 0), 'seq_id': 'int', 'seed': 'int'}
PARAMS = dict([('self', 'Model')] + [(k, T.get(k, 'opaque')) for k in KEYS if k not in KINDS] + [(k, v) for k, v in T.items() if k not in KEYS and k not in KINDS])
ALL = [k for k in PARAMS if k not in ('self',)] + list(KINDS)
for n, t in KINDS.items():
    PARAMS[n] = t if n != 'agent_activation_order' else ('const', 'sequential')
    PARAMS['several_' + n] = 'L[%s]' % t if n != 'agent_activation_order' else ('const', None)
ORDERS = ['simultaneous', 'random']
def is_list(n): return z3.Bool('SEVERAL_' + n)
def chosen(ip, a, mode):
    """every parameter that may vary is a single value or a list of values"""
    out = {}
    for n in KINDS:
        many = mode == 'lists' or (isinstance(mode, tuple) and ip.branch(is_list(n)))
        if not isinstance(mode, tuple): ip.assume(is_list(n) == z3.BoolVal(many))
        out[n] = (PList(list(ORDERS)) if n == 'agent_activation_order' else getattr(a, 'several_' + n)) if many else getattr(a, n)
    return out
def driver(mode, seeded=True):
    def go(ip, f, a):
        if isinstance(mode, tuple):
            for n, b in mode[1]: ip.assume(is_list(n) == z3.BoolVal(b))
        kw = {k: getattr(a, k) for k in ALL if k not in KINDS}
        kw.update(chosen(ip, a, mode))
        if not seeded: kw['seed'] = None
        ip.ghost['given'] = kw
        try: return ip.call_func(f, [a.self], kw)
        except Stop: return None
        finally: ip.frames = []
    return go
def s_stop(ip, env, w): raise Stop()
def s_nothing(ip, env, w):
    """exports of the run, which do not change the model"""
    return None
def s_agents(ip, env, w):
    """C13.population: the agents, drawn with the seed that it is given"""
    ip.ghost.setdefault('agents drawn with', []).append(env['seed'])
    t = ip.ghost['total'] = ip.fresh('total_stake', R)
    return t
def s_initial(ip, env, w):
    """the description of the initial state names the seed"""
    ip.ghost.setdefault('reported', []).append(env['seed'])
    return None
def s_norm(ip, env, w):
    """C13.normalize"""
    return z3.RealVal(1)
STUBS = {H + 'read_seq_id': s_read, H + 'write_seq_id': s_write, H + 'generate_execution_id': s_name, ('Model', 'export_args_file'): s_nothing, ('Model', 'initialize_agents'): s_agents, ('Model', 'normalize_agent_stake'): s_norm,
         ('Model', 'export_initial_state_desc_file'): s_initial, ('Model', 'initialize_pool_id_seq'): s_stop}
def first(S, a, n):
    """the value of the parameter in the first phase"""
    if n == 'agent_activation_order': return z3.If(is_list(n), S.ip.opaque(ORDERS[0]), S.ip.opaque('sequential'))
    l = getattr(a, 'several_' + n); t = 'L[%s]' % KINDS[n]
    v = getattr(a, n); v = v.term if isinstance(v, Obj) else v
    h = lambda f: z3.Select(S.ip.harr0(t, f), l.term)
    return z3.If(is_list(n), z3.Select(h('at'), h('off')), v)
def how_many(S, a, n): return z3.If(is_list(n), 2 if n == 'agent_activation_order' else z3.Select(S.ip.harr0('L[%s]' % KINDS[n], 'len'), getattr(a, 'several_' + n).term), 0)
def req(S, a):
    k = first(S, a, 'k')
    return [('parameters in their domains (C13)', And(k >= 1, first(S, a, 'n') >= 1, a.inactive_stake_fraction >= 0, a.inactive_stake_fraction < 1)),
            ('lists are not empty', And(*[Imp(is_list(n), how_many(S, a, n) >= 1) for n in KINDS]))]
def k_of(S, a): return z3.ToReal(first(S, a, 'k')) / z3.If(a.inactive_stake_fraction_known, 1 - a.inactive_stake_fraction, 1)
def same(x, y): return (x.term if isinstance(x, Obj) else x) == y
def ens_phase(S, a, r):
    ip = S.ip; m = a.self
    rs = S.new(m, 'reward_scheme')
    g = lambda n: S.new(rs if n in ('k', 'a0') else m, n)
    out = [('%s has the value for the first phase' % n, same(g(n), first(S, a, n))) for n in KINDS if n != 'k']
    out += [('k has the value for the first phase, adjusted for the inactive stake if that is known', S.new(rs, '_k') == trunc(k_of(S, a))), ('the saturation threshold follows', S.new(rs, 'global_saturation_threshold') * k_of(S, a) == 1),
            ('the known inactive stake is remembered', S.new(m, 'known_inactive_stake_fraction') == z3.If(a.inactive_stake_fraction_known, a.inactive_stake_fraction, 0)),
            ('the first phase', S.new(m, 'current_phase') == 0)]
    mp = ip.ghost.get('the phase schedule')
    given = ip.ghost['given']
    ok = isinstance(mp, PDict) and mp.ref is None and mp.fd is None and set(mp.items) <= set(KINDS)
    out += [('the schedule has the lists that were given, and nothing else', z3.BoolVal(ok and all(mp.items[n] is given[n] or isinstance(given[n], Obj) and mp.items[n].term.eq(given[n].term) for n in mp.items)))]
    if ok:
        out += [('exactly these', And(*[is_list(n) == z3.BoolVal(n in mp.items) for n in KINDS]))]
        t = S.new(m, 'total_phases')
        hm = [how_many(S, a, n) for n in KINDS]
        out += [('as many phases as the longest list has values', And(t >= 1, *[t >= h for h in hm], Or(t == 1, *[t == h for h in hm])))]
    return out
def ens_ranks(S, a, r):
    ip = S.ip; m = a.self
    rk = ip.ghost.get('rankings', {})
    l = [S.new(m, f).term for f in ('pool_rankings', 'pool_rankings_myopic')]
    k = S.new(S.new(m, 'reward_scheme'), '_k')
    has = S.ip.dget(S.new(m, 'pools'))[0]
    key = [rk.get(str(x)) for x in l]
    return [('two different rankings', l[0] != l[1]), ('no pools in them', And(*[sel(ip.harr('SL', 'mem'), x) == z3.K(PO, z3.BoolVal(False)) for x in l])), ('k + 1 placeholders each', And(*[sel(ip.harr('SL', 'none'), x) == k + 1 for x in l])),
            ('no open pools', S.forall(['int'], lambda i: Not(sel(has, i)), pats=lambda i: [sel(has, i)])),
            ('the main one is ordered by the key for it (C10.key)', z3.BoolVal(getattr(key[0], 'key', None) == 'logic.helper:pool_comparison_key')),
            ('the myopic one is ordered by the key for it (C10.myopic_key), of this run', z3.BoolVal(getattr(getattr(key[1], 'func', None), 'key', None) == SIM + 'pool_comparison_key_myopic' and isinstance(getattr(key[1], 'recv', None), Obj) and key[1].recv.term.eq(m.term)))]
def ens_seed(S, a, r):
    ip = S.ip; m = a.self
    rep, drawn = ip.ghost.get('reported', []), ip.ghost.get('agents drawn with', [])
    if len(rep) != 1 or len(drawn) != 1: return [('the seed is reported, and the agents are drawn once', z3.BoolVal(False))]
    if rep[0] is None or drawn[0] is None: return [('the seed that is used is known', z3.BoolVal(False))]
    g = ip.ghost.get('generator')
    seeded = ip.ghost['given']['seed'] is not None
    n = ip.ghost.get('random draws', 0)
    return [('the reported seed is the one that the agents are drawn with', zi(rep[0]) == zi(drawn[0])),
            ('and the one of the generator of the run', And(z3.BoolVal(g is not None), zi(g) == zi(rep[0])) if g is not None else z3.BoolVal(False)),
            ('a seed that is given is the one that is used', zi(rep[0]) == a.seed if seeded else z3.BoolVal(n == 1)),
            ('no other randomness', z3.BoolVal(n == (0 if seeded else 1)))]
RAISES = {'FileExistsError': exists_raise, 'ValueError': lambda S, a: S.ip.ghost['total'] <= 0 if 'total' in S.ip.ghost else z3.BoolVal(False)}
def con(key, mode, ens, title, seeded=True, raises=RAISES): return Contract(key, SIM + '__init__', PARAMS, driver=driver(mode, seeded), requires=req, ensures=ens, stubs=STUBS, raises=raises, callmode='never', check_frame=False, title=title)
def one(ens):
    """as few obligations as possible, for many paths"""
    return lambda S, a, r: [('every parameter has its first value, and the schedule is the one that was given', And(*[c for n, c in ens(S, a, r)]))]
import itertools
FEW = {**PARAMS, 'seq_id': ('const', 1), 'execution_id': ('const', 'run'), 'seed': ('const', 1), 'metrics': ('const', 'any'), 'agent_profile_distr': ('const', 'any')}
C15 = [Contract('C15.start.%d%d%d' % b, SIM + '__init__', FEW, driver=driver(('any', list(zip(KINDS, map(bool, b))))), requires=req, ensures=one(ens_phase), stubs={**STUBS, ('Model', 'initialize_agents'): s_stop}, raises={'FileExistsError': exists_raise}, callmode='never', check_frame=False,
                title='a run starts with the first value of every parameter and knows all phases (case %d%d%d)' % b) for b in itertools.product((0, 1), repeat=3)]
C15 += [Contract('C15.start.scheme%d.%s' % (i, mode), SIM + '__init__', {**FEW, 'reward_scheme': ('const', i)}, driver=driver(mode), requires=req, ensures=ens_phase, stubs={**STUBS, ('Model', 'initialize_agents'): s_stop}, raises={'FileExistsError': exists_raise}, callmode='never', check_frame=False,
                title='a run starts with the first value of every parameter and knows all phases (scheme %d, %s)' % (i, mode)) for i in range(5) for mode in ('single', 'lists')]
C10 = [con('C10.start' + t, mode, ens_ranks, 'a run starts with two rankings without pools, each with its key' + w) for t, mode, w in (('', 'single', ''), ('.phases', 'lists', ' (several phases)'))]
C21 = [con('C21.start' + t, mode, ens_seed, 'everything random in a run comes from the seed that is reported' + w, seeded) for t, mode, seeded, w in (('', 'single', True, ''), ('.unseeded', 'single', False, ' (no seed given)'), ('.phases', 'lists', True, ' (several phases)'))]
def sorted_list(ip, a, kw, w):
    """sortedcontainers.SortedList of placeholders only"""
    it, key = (list(a) + [kw.get('iterable'), None])[0], kw.get('key', a[1] if len(a) > 1 else None)
    kind, seq = ip.iterate(it)
    l = ip.alloc('SL')
    n = 0
    if kind == 'concrete':
        if any(x is not None for x in seq): raise OutOfSubset('a ranking is made of pools')
        n = len(seq)
    else:
        for c in seq:
            if c.elem is not None or c.hi is None or not ip.valid(Imp(And(c.var >= zi(c.lo), c.var < zi(c.hi)), c.guard)): raise OutOfSubset('a ranking is made of %r' % (c.elem,))
            n = n + z3.If(zi(c.hi) > zi(c.lo), zi(c.hi) - zi(c.lo), 0)
    for f, v in (('none', zi(n)), ('mem', z3.K(PO, z3.BoolVal(False)))): ip.heap[('SL', f)] = z3.Store(ip.harr('SL', f), l.term, v)
    ip.ghost.setdefault('rankings', {})[str(l.term)] = key
    return l
def rng(ip, a, kw, w):
    ip.ghost['random draws'] = ip.ghost.get('random draws', 0) + 1
    return folders.rng(ip, a, kw, w)
def generator(ip, a, kw, w):
    if len(a) != 1 or kw: raise OutOfSubset('random.Random at ' + w)
    ip.ghost['generators'] = ip.ghost.get('generators', 0) + 1
    return Opq('Random', list(a))
def set_random(ip, o, v): ip.ghost['generator'] = v.parts[0] if isinstance(v, Opq) and v.tag == 'Random' else None
def schedule(ip, a, kw, w):
    """mesa.time: a schedule without agents"""
    return ip.alloc('Sched')
def cfg(w):
    folders.cfg(w)
    w.schema['SL'].update(none='int')
    w.ext_calls['sortedcontainers.SortedList'] = sorted_list
    w.ext_calls['random.randint'] = rng
    w.ext_calls['random.Random'] = generator
    for n in ('RandomActivation', 'BaseScheduler', 'SimultaneousActivation'): w.ext_calls['mesa.time.' + n] = schedule
    w.set_hooks[('Model', 'random')] = set_random
    w.set_hooks[('Model', 'multi_phase_params')] = lambda ip, o, v: ip.ghost.__setitem__('the phase schedule', v)
    w.schema['Model'].pop('multi_phase_params', None)
CONFIG = {'C15': cfg, 'C10': cfg, 'C21': cfg}
