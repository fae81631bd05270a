"""C21: what is drawn is a function of the seed and the parameters.  A generator made from a seed gives, at its n-th draw, numbers
that depend on the seed, n and the arguments only (assumed of numpy)."""
import z3
from pyver.spec import Contract
from pyver.scan import Scan
from pyver.vals import *
from .setup import H, count
I, R = z3.IntSort(), z3.RealSort()
PARETO = z3.Function('PARETO_DRAW', I, I, R, I, R)
UNIFORM = z3.Function('UNIFORM_DRAW', I, I, R, R, I, R)
class Gen:
    def __init__(self, seed): self.seed, self.n = seed, 0
def c_rng(ip, a, kw, w):
    """numpy.random.default_rng: a generator determined by the seed"""
    s = kw.get('seed', a[0] if a else None)
    if s is None:
        ip.oblige('the generator has a seed, ' + w, z3.BoolVal(False))
        s = ip.fresh('unseeded', I)
    o = Opq('rng', [s])
    ip.ghost.setdefault('gens', []).append((o, Gen(zi(s))))
    return o
def gen(ip, o):
    for x, g in ip.ghost.get('gens', []):
        if x is o:
            g.n += 1
            return g.seed, z3.IntVal(g.n)
    raise OutOfSubset('a generator of unknown origin')
def seq_of(ip, n, el):
    k = ip.reg.fresh_bound(I, 'i')
    p = PList([]); p.np = True
    p.segs = [Comp(k, z3.And(k >= 0, k < n), el(k), base=('range', 0, n), lo=0, hi=n)]
    return p
def o_pareto(ip, o, a, kw, w):
    """Generator.pareto: numbers determined by seed, draw and shape, not negative"""
    d = dict(zip(('a', 'size'), a)); d.update(kw)
    if d.get('size') is None: raise OutOfSubset('pareto at ' + w)
    s, k = gen(ip, o)
    return seq_of(ip, zi(d['size']), lambda i: PARETO(s, k, zr(d['a']), i))
def o_uniform(ip, o, a, kw, w):
    """Generator.uniform: numbers determined by seed, draw, low and high"""
    d = dict(zip(('low', 'high', 'size'), a)); d.update(kw)
    if d.get('size') is None: raise OutOfSubset('uniform at ' + w)
    s, k = gen(ip, o)
    return seq_of(ip, zi(d['size']), lambda i: UNIFORM(s, k, zr(d['low']), zr(d['high']), i))
def elements(S, r, f):
    ip = S.ip
    kind, s = ip.iterate(r)
    if kind == 'concrete' or len(s) != 1: raise OutOfSubset('a drawn sequence %r' % (r,))
    c = s[0]
    return z3.ForAll([c.var], z3.Implies(c.guard, zr(c.elem) == f(c.var)))
D = [Contract('C21.stakes', H + 'generate_stake_distr_pareto', {'num_agents': 'int', 'pareto_param': 'real', 'seed': 'int', 'truncation_factor': ('const', -1)}, requires=lambda S, a: [('n>=1', a.num_agents >= 1)],
              ensures=lambda S, a, r: [('one per agent', count(S, r) == a.num_agents), ('determined by seed and parameter', elements(S, r, lambda i: PARETO(a.seed, 1, a.pareto_param, i) + 1))], callmode='never', title='the stakes drawn are determined by seed and parameters'),
     Contract('C21.costs', H + 'generate_cost_distr_unfrm', {'num_agents': 'int', 'low': 'real', 'high': 'real', 'seed': 'int'}, requires=lambda S, a: [('n>=1', a.num_agents >= 1), ('range', a.low <= a.high)],
              ensures=lambda S, a, r: [('one per agent', count(S, r) == a.num_agents), ('determined by seed and limits', elements(S, r, lambda i: UNIFORM(a.seed, 1, a.low, a.high, i)))], callmode='never', title='the costs drawn are determined by seed and limits')]
SI, A = 'logic.sim:Simulation.', 'logic.activations:SemiSimultaneousActivation.'
HF = [H + f for f in ('read_stake_distr_from_file', 'generate_stake_distr_pareto', 'generate_cost_distr_unfrm', 'generate_cost_distr_bands', 'generate_cost_distr_bands_manual')]
FR = [Scan('C21.sources', calls={'random': [SI + '__init__', SI + 'initialize_agents', SI + 'export_graphs', A + 'step'], 'default_rng': HF + [SI + 'export_graphs'], 'randint': [SI + '__init__'], 'choices': [SI + 'initialize_agents'] + [H + 'add_script_arguments', H + '<body>'],
                                 'sample': [A + 'step', H + 'truncate_pareto'], 'shuffle': [], 'urandom': [], 'uuid4': [], 'uuid1': [], 'getrandbits': [], 'hash': [], 'now': [], 'time_ns': [], 'perf_counter': [], 'monotonic': [], 'environ': [], 'getpid': [], 'id_seq': [SI + 'initialize_pool_id_seq', SI + 'get_next_pool_id', SI + 'rewind_pool_id_seq'],
                                 'normal': [], 'RandomState': [], 'SystemRandom': [], 'permutation': [], 'randrange': [], 'globals': []},
           title='no other source of randomness, time or process state is used')]
DRAWS = D
SOURCES = FR
def cfg(w):
    w.ext_calls['numpy.random.default_rng'] = c_rng
    w.opq_methods['uniform'] = o_uniform
    w.opq_methods['pareto'] = o_pareto
CONFIG = {'DRAWS': cfg}
