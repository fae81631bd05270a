"""C24: serial numbers, names and output folders."""
import z3
from pyver.spec import Contract
from pyver import files
from pyver.scan import Scan
from pyver.vals import *
from pyver.interp import OPAQUES
from pyver.world import PARSE_OK_I, PARSE_I
H = 'logic.helper:'
SIM = 'logic.sim:Simulation.'
BR = 'custom_batchrunner:'
I, B = z3.IntSort(), z3.BoolSort()
# ---------------------------------------------------------------- texts
def known(v):
    """the value an opaque constant stands for"""
    if isinstance(v, Obj) and v.fam == 'opaque' and v.term.num_args() == 0: return OPAQUES.get(v.term.decl().name(), v)
    return v
def pieces(v):
    """a text as the sequence of its pieces"""
    v = known(v)
    if isinstance(v, str): return [v] if v else []
    if isinstance(v, Opq) and v.tag == 'op+': return merge(pieces(v.parts[0]) + pieces(v.parts[1]))
    if isinstance(v, Opq) and v.tag == 'concat': return merge([q for p in v.parts for q in pieces(p)])
    if isinstance(v, Opq) and v.tag == 'fmt' and v.parts[1] == '': return pieces(Opq('str', [v.parts[0]]))
    if isinstance(v, Opq) and v.tag == 'str' and isinstance(v.parts[0], (Opq, str)): return pieces(v.parts[0])
    if isinstance(v, Opq) and v.tag == 'join' and isinstance(v.parts[0], str) and not any(isinstance(p, Opq) and p.tag == 'comp' for p in v.parts[1:]):
        out = []
        for i, p in enumerate(v.parts[1:]): out += ([v.parts[0]] if i and v.parts[0] else []) + pieces(p)
        return merge(out)
    if isinstance(v, Opq) and v.tag == 'format' and isinstance(v.parts[0], str) and v.parts[0].count('{}') == len(v.parts) - 1:
        out = []
        fs = v.parts[0].split('{}')
        for i, f in enumerate(fs): out += ([f] if f else []) + (pieces(Opq('str', [v.parts[i + 1]])) if i < len(fs) - 1 else [])
        return merge(out)
    return [v]
def merge(l):
    out = []
    for x in l:
        if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
        else: out.append(x)
    return out
def same_piece(S, x, y):
    if isinstance(x, str) or isinstance(y, str): return z3.BoolVal(x is y or (isinstance(x, str) and isinstance(y, str) and x == y))
    if is_num(x) and is_num(y): return zr(x) == zr(y)
    if isinstance(x, Opq) and x.tag == 'str' and isinstance(y, Opq) and y.tag == 'str': return same_piece(S, x.parts[0], y.parts[0])
    if isinstance(x, Opq) and x.tag == 'str' and isinstance(y, Obj): return same_piece(S, x.parts[0], y)
    if isinstance(y, Opq) and y.tag == 'str' and isinstance(x, Obj): return same_piece(S, x, y.parts[0])
    if is_num(x) or is_num(y): return z3.BoolVal(False)
    return S.ip.opaque(x) == S.ip.opaque(y)
def same_text(S, x, y):
    p, q = pieces(x), pieces(y)
    if len(p) != len(q): return z3.BoolVal(False)
    return z3.And(*[same_piece(S, a, b) for a, b in zip(p, q)]) if p else z3.BoolVal(True)
def steps(v):
    """a path as the list of its components"""
    v = known(v)
    if isinstance(v, Opq) and v.tag == 'path': return steps(v.parts[0])
    if isinstance(v, Opq) and v.tag == 'join path': return steps(v.parts[0]) + steps(v.parts[1])
    return [v]
def same_path(S, x, want):
    p = steps(x)
    if len(p) != len(want): return z3.BoolVal(False)
    return z3.And(*[same_text(S, a, b) for a, b in zip(p, want)])
# ---------------------------------------------------------------- the stored number
NAME = lambda S, a: a.filename
def txt(S, a): return S.ip.opaque(files.text0(S.ip, a.filename))
def ens_read(S, a, r):
    ok = is_num(r) and is_int_kind(r)
    return [('the stored number, or 0 if there is none', z3.BoolVal(False) if not ok else zi(r) == z3.If(files.exists0(S.ip, a.filename), PARSE_I(txt(S, a)), 0)),
            ('reading changes nothing', z3.BoolVal(not files.log(S.ip)))]
def ens_write(S, a, r):
    l = files.log(S.ip)
    st = files.state(S.ip).get(vkey(a.filename))
    ok = st is not None and len(st) == 1 and st[0][0] == 'write' and all(vkey(x[1]) == vkey(a.filename) for x in l)
    return [('the file holds exactly the number', same_text(S, st[0][1], Opq('str', [a.seq])) if ok else z3.BoolVal(False))]
C24 = [Contract('C24.read_seq_id', H + 'read_seq_id', {'filename': 'str'}, ensures=ens_read, raises={'ValueError': lambda S, a: z3.And(files.exists0(S.ip, a.filename), z3.Not(PARSE_OK_I(txt(S, a))))}, callmode='never',
                title='the stored serial number is read, 0 if there is none'),
       Contract('C24.write_seq_id', H + 'write_seq_id', {'seq': 'int', 'filename': 'str'}, ensures=ens_write, callmode='never', title='the serial number is stored')]
def d_default(fn):
    def driver(ip, f, a): return ip.call_func(f, [a.seq] if fn == 'write' else [], {})
    return driver
def ens_same_file(S, a, r):
    """writing, then reading: the same file by default, and the number comes back"""
    return [('the number stored is the number read back', zi(r) == a.seq if is_num(r) else z3.BoolVal(False))]
def d_roundtrip(ip, f, a):
    ip.call_func(f, [a.seq], {})
    t = Opq('str', [a.seq])
    ip.assume(z3.And(PARSE_OK_I(ip.opaque(t)), PARSE_I(ip.opaque(t)) == a.seq))       # int(str(n)) == n: Python
    return ip.call_func(ip.prog.func(H + 'read_seq_id'), [], {})
C24.append(Contract('C24.roundtrip', H + 'write_seq_id', {'seq': 'int'}, driver=d_roundtrip, ensures=ens_same_file, callmode='never', title='the number stored is the number read back'))
# ---------------------------------------------------------------- the constructed name
KEYS = ['n', 'k', 'a0', 'stake_distr_source', 'agent_profile_distr', 'inactive_stake_fraction', 'inactive_stake_fraction_known', 'relative_utility_threshold', 'absolute_utility_threshold', 'seed', 'pareto_param',
        'max_iterations', 'cost_min', 'cost_max', 'extra_pool_cost_fraction', 'agent_activation_order', 'iterations_after_convergence', 'reward_scheme', 'execution_id', 'seq_id', 'parent_dir', 'metrics', 'generate_graphs']
def d_name(ip, f, a):
    d = PDict(); d.items = {k: getattr(a, k) for k in KEYS}
    ip.ghost['n'] = ip.nfresh
    return ip.call_func(f, [d], {})
def leaves(v, out):
    if isinstance(v, Opq):
        for p in v.parts: leaves(p, out)
    elif isinstance(v, (tuple, list)):
        for p in v: leaves(p, out)
    elif isinstance(v, PList): leaves(v.items, out); leaves(v.segs or [], out)
    elif isinstance(v, Comp): leaves(v.elem, out); consts(v.guard, out)
    elif isinstance(v, Obj): consts(v.term, out)
    elif is_z3(v): consts(v, out)
    elif v is None or isinstance(v, (str, int, bool)) or type(v).__name__ in ('Fraction', 'float'): pass
    else: out.add('?' + repr(v))
    return out
def consts(e, out):
    if z3.is_var(e): return
    if z3.is_quantifier(e): consts(e.body(), out); return
    if z3.is_app(e) and e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(e.decl().name())
    for c in e.children(): consts(c, out)
def ens_name(S, a, r):
    if isinstance(r, str): return [('at most 100 characters', z3.BoolVal(len(r) <= 100))]
    if isinstance(r, Opq) and r.tag == 'slice' and r.parts[1] in (None, 0) and isinstance(r.parts[2], int) and r.parts[2] >= 0: short = r.parts[2] <= 100
    elif isinstance(r, Opq) and r.tag in ('op+', 'concat', 'join', 'slice', 'str', 'format'): short = False
    else: raise OutOfSubset('name %r' % (r,))
    names = leaves(r, set())
    ok = all(n.startswith('arg_') or '!b' in n for n in names)
    return [('at most 100 characters', z3.BoolVal(short)), ('it depends on the parameters only', z3.BoolVal(ok)),
            ('nothing is written', z3.BoolVal(not files.log(S.ip)))]
C24.append(Contract('C24.name', H + 'generate_execution_id', {k: 'opaque' for k in KEYS}, driver=d_name, ensures=ens_name, callmode='never', title='the constructed name depends on the parameters only and is short'))
# ---------------------------------------------------------------- a new run
class Stop(Exception): pass
STORED = z3.Const('STORED_NUMBER', I)
def s_read(ip, env, w):
    """C24.read_seq_id"""
    ip.assume(STORED >= 0)
    return ip.ghost.get('stored', STORED)
def s_write(ip, env, w):
    """C24.write_seq_id"""
    ip.ghost.setdefault('stores', []).append(list(env.values())[0]); ip.ghost['stored'] = list(env.values())[0]
def s_name(ip, env, w):
    """C24.name"""
    ip.ghost['named from'] = list(env.values())[0]
    return Obj('opaque', z3.Const('CONSTRUCTED_NAME', fam_sort('opaque')), None, True)
def s_stop(ip, env, w): raise Stop()
def s_args(ip, env, w):
    """the parameters from the file: any"""
    d = PDict(); d.items = {k: getattr(ip.ghost['args'], k) for k in KEYS}
    return d
PARAMS = dict([('self', 'Model')] + [(k, 'opaque') for k in KEYS] + [('seed', 'int'), ('seq_id', 'int')])
def driver_until(stop_args):
    def driver(ip, f, a):
        try: return ip.call_func(f, *stop_args(ip, a))
        except Stop: return None
        finally: ip.frames = []
    return driver
def init_args(from_file):
    def go(ip, a): return [a.self], ({k: getattr(a, k) for k in KEYS} if not from_file else {'input_from_file': True})
    return go
def ens_init(S, a, r):
    ip = S.ip; m = a.self
    own = a.seq_id == -1
    used = z3.If(own, STORED + 1, a.seq_id)
    stores = ip.ghost.get('stores', [])
    l = files.log(ip)
    if [x[0] for x in l] != ['mkdir']: return [('one folder is created, and nothing is written before', z3.BoolVal(False))]
    unnamed = z3.Or(a.execution_id.term == ip.opaque(''), a.execution_id.term == ip.opaque('temp'))
    nm = lambda name: same_path(S, l[0][1], [Opq('cwd'), 'output', a.parent_dir, Opq('op+', [Opq('op+', [Opq('str', [used]), '-']), name])])
    cn = Obj('opaque', z3.Const('CONSTRUCTED_NAME', fam_sort('opaque')), None, True)
    last = steps(l[0][1])[-1]
    g = ip.ghost.get('named from')
    return [('a run without a number takes the next one and stores it; one with a number leaves the stored one alone', z3.And(z3.BoolVal(len(stores) <= 1), own == z3.BoolVal(len(stores) == 1), *[zi(x) == STORED + 1 for x in stores])),
            ('the run knows its number', S.new(m, 'seq_id') == used),
            ('the folder is named after the number and the name', z3.If(unnamed, nm(cn), nm(a.execution_id))),
            ('the folder did not exist before', z3.BoolVal(l[0][2] is False)),
            ('the run writes to that folder', S.new(m, 'directory').term == ip.opaque(l[0][1]) if False else same_dir(S, S.new(m, 'directory').term, l[0][1])),
            ('a name is constructed from the parameters only', z3.BoolVal(g is None or (isinstance(g, PDict) and set(g.items) <= set(KEYS)))),
            ('the run knows its name', S.new(m, 'execution_id').term == ip.opaque(last))]
def same_dir(S, t, p):
    ip = S.ip
    return z3.Or(t == ip.opaque(p), t == ip.opaque(Opq('path', [p])))
def rng(ip, a, kw, w):
    lo, hi = a
    r = ip.fresh('random', I); ip.assume(z3.And(r >= zi(lo), r <= zi(hi)))
    return r
def super_init(ip, obj, a, kw, w): return None
STUBS = {H + 'read_seq_id': s_read, H + 'write_seq_id': s_write, H + 'generate_execution_id': s_name, H + 'read_args_from_file': s_args, ('Model', 'export_args_file'): s_stop}
def exists_raise(S, a):
    """there is such a folder already"""
    t = S.ip.ghost.get('mkdir tried')
    return z3.BoolVal(False) if t is None else files.exists0(S.ip, t)
for tag, ff in (('', False), ('.file', True)):
    C24.append(Contract('C24.new_run' + tag, SIM + '__init__', PARAMS, driver=driver_until(init_args(ff)), ensures=ens_init, raises={'FileExistsError': exists_raise}, stubs=STUBS, callmode='never', check_frame=False,
                        title='a new run takes the next number (or the one given) and a folder of its own' + (', parameters from a file' if ff else '')))
C24.append(Contract('C24.new_run.unseeded', SIM + '__init__', {**PARAMS, 'seed': ('const', None)}, driver=driver_until(init_args(False)), ensures=ens_init, raises={'FileExistsError': exists_raise}, stubs=STUBS, callmode='never', check_frame=False,
                    title='a new run takes the next number (or the one given) and a folder of its own, no seed given'))
C24.append(Scan('C24.frame', writes={'directory': [SIM + '__init__']}, calls={'write_seq_id': [SIM + '__init__', BR + 'custom_batch_run']}, dynamic=[SIM + '__init__', SIM + 'change_phase'],
                title='the folder of a run stays the same, and numbers are stored by new runs and batches only'))
def d_batch(ip, a):
    d = PDict(); ip.ghost['params'] = d
    return [Opq('model class'), d, a.batch_run_id], {}
def ens_batch(S, a, r):
    ip = S.ip
    stores = ip.ghost.get('stores', [])
    l = files.log(ip)
    if [x[0] for x in l] != ['mkdir']: return [('one folder is created, and nothing is written before', z3.BoolVal(False))]
    d = ip.ghost['params']
    pd = d.items.get('parent_dir')
    return [('the batch takes the next number and stores it', z3.And(z3.BoolVal(len(stores) == 1), *[zi(x) == STORED + 1 for x in stores])),
            ('its folder is named after it', same_path(S, l[0][1], [Opq('cwd'), 'output', Opq('op+', [Opq('op+', [Opq('str', [STORED + 1]), '-']), a.batch_run_id])])),
            ('the folder did not exist before', z3.BoolVal(l[0][2] is False)),
            ('its executions write into it', same_path(S, pd, steps(l[0][1])) if pd is not None else z3.BoolVal(False))]
C24.append(Contract('C24.new_batch', BR + 'custom_batch_run', {'batch_run_id': 'opaque'}, driver=driver_until(d_batch), ensures=ens_batch, raises={'FileExistsError': exists_raise}, stubs={H + 'read_seq_id': s_read, H + 'write_seq_id': s_write, BR + '_make_model_kwargs': s_stop},
                    callmode='never', check_frame=False, title='a batch takes the next number and a folder of its own'))
def cfg(w):
    files.install(w)
    w.ext_calls['random.randint'] = rng
    w.ext_calls['random.Random'] = lambda ip, a, kw, ww: Opq('Random', list(a))
    w.obj_methods[('Model', 'super.__init__')] = super_init
    ITEM = z3.Function('ITEM_OF', fam_sort('opaque'), I, fam_sort('opaque'))
    LEN = z3.Function('LENGTH_OF', fam_sort('opaque'), I)
    def it(ip, o):
        k = ip.reg.fresh_bound(I, 'i')
        return Comp(k, z3.And(k >= 0, k < LEN(o.term)), Obj('opaque', ITEM(o.term, k), None, True), base=('range', 0, LEN(o.term)), lo=0, hi=LEN(o.term))
    w.iterables['opaque'] = it
CONFIG = {'C24': cfg}
