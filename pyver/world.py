"""What the verifier knows about the program's classes (types of the attributes), about the external base classes,
and which contracts are in force at calls."""
import ast
from fractions import Fraction
import z3
from .vals import *
from .source import *
from .ext import Ext
from .symspec import Sym
from .spec import A

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
PARSE_OK_I = z3.Function('PARSES_AS_INT', fam_sort('opaque'), B)
PARSE_I = z3.Function('INT_OF', fam_sort('opaque'), I)
PARSE_OK_F = z3.Function('PARSES_AS_FLOAT', fam_sort('opaque'), B)
PARSE_F = z3.Function('FLOAT_OF', fam_sort('opaque'), R)
PARSE_NAN = z3.Function('NAN_OF', fam_sort('opaque'), B)
PARSE_PINF = z3.Function('PINF_OF', fam_sort('opaque'), B)
PARSE_NINF = z3.Function('NINF_OF', fam_sort('opaque'), B)

def schema0():
    return {
        'Rss': {'_k': 'int', 'a0': 'real', 'global_saturation_threshold': 'real', 'crossover_factor': 'real', 'curve_root': 'real'},
        'Pool': {'id': 'int', 'cost': 'real', 'pledge': 'real', 'stake': 'real', 'owner': 'int', 'is_private': 'bool',
                 'delegators': 'D[int,real]', 'potential_profit': 'real', '_margin': 'real', 'desirability': 'real'},
        'Agent': {'unique_id': 'int', 'cost': 'real', 'stake': 'real', 'model': 'Model', 'strategy': 'Strategy',
                  'new_strategy': 'Strategy', 'rankings': 'SL'},
        'Strategy': {'owned_pools': 'D[int,Pool]', 'stake_allocations': 'D[int,real]'},
        'Model': {'reward_scheme': 'Rss', 'pools': 'D[int,Pool]', 'pool_rankings': 'SL', 'pool_rankings_myopic': 'SL',
                  'total_stake': 'real', 'id_seq': 'int', 'current_step_idle': 'bool', 'consecutive_idle_steps': 'int',
                  'iterations_after_convergence': 'int', 'max_iterations': 'int', 'running': 'bool', 'current_phase': 'int',
                  'total_phases': 'int', 'relative_utility_threshold': 'real', 'absolute_utility_threshold': 'real',
                  'extra_pool_cost_fraction': 'real', 'agent_activation_order': 'opaque', 'n': 'int', 'schedule': 'Sched',
                  'known_inactive_stake_fraction': 'real', 'perceived_active_stake': 'real', 'equilibrium_steps': 'L[int]',
                  'pivot_steps': 'L[int]', 'seq_id': 'int', 'execution_id': 'opaque', 'directory': 'opaque',
                  'generate_graphs': 'bool', 'start_time': 'real', 'datacollector': 'opaque', 'random': 'opaque', '_seed': 'int'},
        'Sched': {'steps': 'int', 'time': 'int', 'model': 'Model', 'simultaneous_moves': 'int', 'all_agents_move': 'bool',
                  '_agents': 'D[int,Agent]'},
        'SL': {'len': 'int', 'at': 'A[int,Pool]', 'mem': 'A[Pool,bool]'},
    }
CLASS_FAM = {'Pool': 'Pool', 'Strategy': 'Strategy', 'Simulation': 'Model', 'Stakeholder': 'Agent', 'RSS': 'Rss', 'SemiSimultaneousActivation': 'Sched'}

class World:
    def __init__(self, prog, contracts=(), config=None):
        self.prog = prog
        self.schema = schema0()
        self.ext = Ext(self)
        self.dsum = z3.Function('DSUM', z3.ArraySort(I, R), R)
        self.iterables, self.ext_objs, self.base_attrs, self.ext_calls = {}, {}, {}, {}
        self.obj_methods, self.opq_methods = {}, {}
        self.int_dicts_as_real = False
        self.nonnull_dicts = False
        self.closure = False
        self.on_setfield = None      # ghost updates
        self.set_hooks = {}          # (family, attribute) -> what an assignment to it does instead
        self.sl_key = self.sl_witness = None
        self.deepcopies = {}
        self.contracts = {}
        self.stubs = {}       # (family, method name) or 'module:function' -> fn(ip, env, where): abstraction of a callee
        for c in contracts:
            if getattr(c, 'target', None): self.contracts.setdefault(c.target, []).append(c)
        self.roots = {'Pool': 'logic.pool:Pool', 'Strategy': 'logic.strategy:Strategy', 'Model': 'logic.sim:Simulation',
                      'Agent': 'logic.stakeholder:Stakeholder', 'Rss': 'logic.reward_schemes:RSS', 'Sched': 'logic.activations:SemiSimultaneousActivation'}
        from . import models
        models.install(self)
        if config: config(self)
    # ---- types
    def field_sort(self, t):
        if t in BASE: return BASE[t]
        if t.startswith('A['):
            k, v = t[2:-1].split(',')
            return z3.ArraySort(sort_of(k), sort_of(v))
        if t.startswith('S['): return z3.ArraySort(sort_of(t[2:-1]), B)
        return fam_sort(t)
    def exact_class(self, fam):
        if fam in ('Pool', 'Strategy', 'Model'): return self.prog.cls(self.roots[fam])
        return None
    def root_class(self, fam):
        r = self.roots.get(fam)
        return self.prog.cls(r) if r else None
    def family(self, cls):
        for c in cls.mro():
            if c.name in CLASS_FAM: return CLASS_FAM[c.name]
        self.schema.setdefault(cls.name, {})
        self.roots.setdefault(cls.name, cls.module.name + ':' + cls.name)
        return cls.name
    def close_refs(self, ip, fam, field, t):
        """objects reachable from objects that exist on entry exist on entry"""
        h = ip.heap0[(fam, field)]
        o = z3.Const('cl_' + fam, fam_sort(fam))
        if is_dict_type(fam):
            K, V = dict_kv(fam)
            if field != 'val' or V in BASE or V == 'opaque': return
            k = z3.Const('clk_' + K, sort_of(K))
            has = ip.harr0(fam, 'has')
            x = z3.Select(z3.Select(h, o), k)
            ip.globals_.append(z3.ForAll([o, k], z3.Implies(z3.And(ip.alloc0(fam)(o), z3.Select(z3.Select(has, o), k)), z3.And(x != null_of(V), ip.alloc0(V)(x))), patterns=[x]))
        elif t not in BASE and t != 'opaque' and not t.startswith('A[') and not t.startswith('S['):
            x = z3.Select(h, o)
            ip.globals_.append(z3.ForAll([o], z3.Implies(ip.alloc0(fam)(o), z3.Or(x == null_of(t), ip.alloc0(t)(x))), patterns=[x]))
    def dict_values_nonnull(self, ip, o, kk, r): return bool(self.nonnull_dicts)
    # ---- strings given on the command line
    def parse_int(self, ip, v):
        t = ip.opaque(v)
        return PARSE_OK_I(t), PARSE_I(t)
    def parse_float(self, ip, v):
        t = ip.opaque(v)
        n, p, m = PARSE_NAN(t), PARSE_PINF(t), PARSE_NINF(t)
        ip.assume(z3.And(z3.Not(z3.And(n, p)), z3.Not(z3.And(n, m)), z3.Not(z3.And(p, m))))
        return PARSE_OK_F(t), XFloat(PARSE_F(t), n, p, m)
    # ---- the reward scheme seen through its interface
    def rss_state(self, ip, rss):
        return [rss.term] + [z3.Select(ip.harr('Rss', f), rss.term) for f in ('_k', 'a0', 'global_saturation_threshold')]
    def rss_reward(self, ip, rss, pledge, stake):
        if rss.cls is not None:
            f = rss.cls.find('methods', 'calculate_pool_reward')
            return ip.call_func(f, [rss], {'pool_pledge': pledge, 'pool_stake': stake})
        st = self.rss_state(ip, rss)
        F = z3.Function('REWARD', *[s.sort() for s in st], R, R, R)
        return F(*st, zr(pledge), zr(stake))
    def rss_threshold(self, ip, rss, pledge):
        if rss.cls is not None:
            f = rss.cls.find('methods', 'get_pool_saturation_threshold')
            return ip.call_func(f, [rss], {'pool_pledge': pledge})
        st = self.rss_state(ip, rss)
        F = z3.Function('THRESHOLD', *[s.sort() for s in st], R, R)
        return F(*st, zr(pledge))
    # ---- calls
    def contract_for(self, f, args):
        n = f.qual.split('.')[-1]
        if self.stubs:
            h = self.stubs.get(f.key)
            if h is None and f.cls is not None and args and isinstance(args[0], Obj): h = self.stubs.get((args[0].fam, n))
            if h is not None: return Stub(h, f.key)
        if args and isinstance(args[0], Obj) and args[0].fam == 'Rss' and args[0].cls is None and n in ('calculate_pool_reward', 'get_pool_saturation_threshold'):
            return RssInterface(n)
        if args and isinstance(args[0], Obj) and args[0].fam == 'Agent' and args[0].cls is None and f.cls is not None and f.cls.name == 'Stakeholder':
            h = self.contracts.get('abstract:' + n)
            if h: return h[0]
        for c in self.contracts.get(f.key, ()):
            if c.callmode == 'never': continue
            return c
        # a method of a class: contracts may be attached to the attribute as found in a subclass
        return None
    def apply_contract(self, ip, con, f, env, where):
        if isinstance(con, Stub): return con.fn(ip, env, where)
        if isinstance(con, RssInterface):
            vals = list(env.values())
            if con.name == 'calculate_pool_reward':
                return self.rss_reward(ip, vals[0], env.get('pool_pledge', vals[1]), env.get('pool_stake', vals[2]))
            return self.rss_threshold(ip, vals[0], vals[1])
        ip.calls_seen.add(con.key)
        a = self.args_record(con, env)
        if con.callmode is not None and callable(con.callmode): return con.callmode(ip, a, where)
        S = Sym(ip)
        if con.requires:
            for name, c in con.requires(S, a): ip.oblige('precondition of %s: %s, at the call %s' % (con.key, name, where), c)
        for exc, cond in con.raises.items():
            if ip.branch(zb(cond(S, a)) if not isinstance(cond(S, a), bool) else cond(S, a)): raise_(exc, where)
        if con.value: return con.value(S, a)
        old = dict(ip.heap)
        for fam, field in con.modifies:
            arr = ip.harr(fam, field); old.setdefault((fam, field), arr)
            ip.heap[(fam, field)] = ip.fresh('H_%s_%s' % (fam, field), arr.sort())
        res = self.fresh_value(ip, con.result_type) if con.result_type else None
        S2 = Sym(ip, old)
        if con.ensures:
            for name, c in con.ensures(S2, a, res): ip.assume(c)
        return res
    def fresh_value(self, ip, t, name='res', nonnull=True):
        if callable(t): return t(ip)
        if isinstance(t, tuple) and t[0] == 'tuple': return tuple(self.fresh_value(ip, x, name) for x in t[1:])
        if t.startswith('opt:'): return Obj(t[4:], ip.fresh(name, fam_sort(t[4:])), self.exact_class(t[4:]), False)
        if t in BASE: return ip.fresh(name, BASE[t])
        o = Obj(t, ip.fresh(name, fam_sort(t)), self.exact_class(t), nonnull)
        if nonnull: ip.assume(o.term != null_of(t))
        return o
    def args_record(self, con, env):
        names = [n for n in con.params]
        d = {}
        vals = list(env.values())
        keys = list(env.keys())
        for i, n in enumerate(names):
            if n in env: d[n] = env[n]
            elif i < len(vals): d[n] = vals[i]
        return A(d)
    def super_call(self, ip, obj, exts, name, a, kw, where):
        if name == '__init__':
            h = self.obj_methods.get((obj.fam, 'super.__init__'))
            if h: return h(ip, obj, a, kw, where)
            if all(x in ('builtins.object',) for x in exts) : return None
            return None
        raise OutOfSubset('super().%s at %s' % (name, where))
    def loop_inv(self, ip, st, spec, it=None):
        return spec.run(ip, st, it)

class Stub:
    inline = False
    def __init__(self, fn, key): self.fn, self.key = fn, key

class RssInterface:
    """behavioural contract of a reward scheme: its methods are functions of the scheme's parameters and the arguments
    (no side effect, no other input); discharged for each concrete scheme by property C03"""
    inline = False
    def __init__(self, name): self.name, self.key = name, 'RSS.' + name

def raise_(exc, where):
    from .interp import SymRaise
    raise SymRaise(exc, where)
