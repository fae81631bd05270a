"""C23: command-line values."""
import z3
from pyver.spec import Contract
from pyver.vals import *
from pyver.source import *
from pyver.world import PARSE_OK_I, PARSE_I, PARSE_OK_F, PARSE_F, PARSE_NAN, PARSE_PINF, PARSE_NINF

H = 'logic.helper:'
REJECT = ('ValueError', 'ArgumentTypeError', 'TypeError', 'OverflowError')   # argparse turns each of these into a usage error

def is_int_kind_ok(lo): return lambda t: z3.And(PARSE_OK_I(t), PARSE_I(t) >= lo)
def fin(t): return z3.And(PARSE_OK_F(t), z3.Not(PARSE_NAN(t)), z3.Not(PARSE_PINF(t)), z3.Not(PARSE_NINF(t)))
KINDS = {
    'positive_int': (is_int_kind_ok(1), 'i'), 'non_negative_int': (is_int_kind_ok(0), 'i'),
    'positive_float': (lambda t: z3.And(fin(t), PARSE_F(t) > 0), 'f'), 'non_negative_float': (lambda t: z3.And(fin(t), PARSE_F(t) >= 0), 'f'),
    'fraction': (lambda t: z3.And(fin(t), PARSE_F(t) >= 0, PARSE_F(t) <= 1), 'f'),
}
def value_ok(kind, t, r):
    if kind == 'i':
        return z3.BoolVal(False) if not (is_num(r) and is_int_kind(r)) else zi(r) == PARSE_I(t)
    if isinstance(r, XFloat): return z3.And(z3.Not(r.nan), z3.Not(r.pinf), z3.Not(r.ninf), r.val == PARSE_F(t))
    return zr(r) == PARSE_F(t) if is_num(r) else z3.BoolVal(False)

def validator(name):
    ok, kind = KINDS[name]
    T = lambda S, a: S.ip.opaque(a.value)
    return Contract('C23.' + name, H + name, {'value': 'str'}, raises={REJECT: lambda S, a: z3.Not(ok(T(S, a)))},
                    ensures=lambda S, a, r: [('the value is kept', value_ok(kind, T(S, a), r))], title='%s accepts exactly its kind' % name)
VALID = [validator(n) for n in KINDS]

OPTIONS = {'--n': 'positive_int', '--k': 'positive_int', '--a0': 'non_negative_float', '--agent_profile_distr': 'non_negative_float',
           '--cost_min': 'non_negative_float', '--cost_max': 'non_negative_float', '--extra_pool_cost_fraction': 'non_negative_float',
           '--absolute_utility_threshold': 'non_negative_float', '--relative_utility_threshold': 'non_negative_float', '--pareto_param': 'positive_float',
           '--inactive_stake_fraction': 'fraction', '--iterations_after_convergence': 'positive_int', '--max_iterations': 'positive_int', '--seed': 'non_negative_int'}

def option(opt, name):
    ok, kind = KINDS[name]
    def driver(ip, f, a):
        ip.call_func(f, [Opq('parser')], {})
        hits = [kw for args, kw in ip.ghost.get('add_argument', []) if opt in args]
        ip.oblige('C23.option.%s: the option is declared once' % opt, z3.BoolVal(len(hits) == 1))
        return ip.call(hits[-1]['type'], [a.value], {}, 'type function of ' + opt)
    T = lambda S, a: S.ip.opaque(a.value)
    return Contract('C23.option.' + opt, H + 'add_script_arguments', {'value': 'str'}, raises={REJECT: lambda S, a: z3.Not(ok(T(S, a)))},
                    ensures=lambda S, a, r: [('the value is kept', value_ok(kind, T(S, a), r))], driver=driver, title='option %s accepts exactly: %s' % (opt, name))
C23 = VALID + [option(o, n) for o, n in OPTIONS.items()]

def _add_argument(ip, o, a, kw, w):
    ip.ghost.setdefault('add_argument', []).append((list(a), dict(kw)))
    return Opq('action')
def cfg(w):
    w.opq_methods['add_argument'] = _add_argument
    for v in VALID: w.contracts.pop(v.target, None)       # the options are checked on the code of their type functions
CONFIG = {'C23': cfg}
