"""C25: what the result files are given to say."""
import z3
from pyver.spec import Contract
from pyver import files
from pyver.vals import *
from pyver.ext import ROUNDN
from .setup import agents_ok
from .metrics import St, req
from .scalar import v_pp, _X
SIM = 'logic.sim:Simulation.'
H = 'logic.helper:'
I, R = z3.IntSort(), z3.RealSort()
def name_of(c): return c if isinstance(c, str) else None
def same(S, x, y):
    """are the two values the same?  (numbers by value, texts by their parts)"""
    if isinstance(x, Opq) and x.tag == 'ite': return z3.If(zb(x.parts[0]), same(S, x.parts[1], y), same(S, x.parts[2], y))
    if isinstance(y, Opq) and y.tag == 'ite': return same(S, y, x)
    if is_boolv(x) and is_boolv(y): return zb(x) == zb(y)
    if is_num(x) and is_num(y): return zr(x) == zr(y)
    if isinstance(x, Obj) and isinstance(y, Obj): return z3.BoolVal(False) if x.fam != y.fam else x.term == y.term
    if isinstance(x, Obj) and x.fam == 'opaque' or isinstance(y, Obj) and y.fam == 'opaque': return S.ip.opaque(x) == S.ip.opaque(y)
    return z3.BoolVal(vkey(x) == vkey(y))
def rec(kind):
    def st(ip, env, w):
        v = list(env.values())
        ip.ghost.setdefault('written', []).append((kind, v[0], v[1]) if kind != 'line' else (kind, v[1:], v[0]))
    return st
def r15(x): return ROUNDN(zr(x), z3.IntVal(15))
def rows_of(r):
    """the header and the one family of rows"""
    if isinstance(r, PList):
        if len(r.items) == 1 and r.segs and len(r.segs) == 1: return r.items[0], r.segs[0]
        segs = list(r.segs or [])
        if not r.items and len(segs) == 2 and segs[0].lo is not None and z3.is_true(z3.simplify(z(segs[0].hi) - z(segs[0].lo) == 1)): return subst(segs[0].elem, segs[0].var, z(segs[0].lo)), segs[1]
    raise OutOfSubset('rows of the file: %r' % (r,))
def one(S, kind, n):
    w = S.ip.ghost.get('written', [])
    return [('the file is written exactly once', z3.BoolVal(len(w) == n and all(x[0] == kind for x in w)))]
def where(S, a, path, name):
    d = S.get(a.self, 'directory')
    return [('it is written in the folder of the run', z3.BoolVal(isinstance(path, Opq) and ('obj', 'opaque', d.term.sexpr()) in flat(path.key()) and any(c[0] == 'c' and name in str(c[2]) for c in flat(path.key()))))]
def flat(k):
    out = []
    def go(x):
        if isinstance(x, tuple):
            out.append(x)
            for y in x: go(y)
    go(k)
    return out
POOL_HEAD = ["Pool id", "Owner id", "Owner stake", "Pool Pledge", "Pool stake", "Owner cost", "Pool cost", "Pool margin", "Pool PP", "Pool desirability"]
AGENT_HEAD = ["Agent id", "Initial stake", "Cost", "Potential Profit", "Status", "Pools owned", "Total pool stake", "Pool splitting profit", "Profitable pool splitter"]
def row(S, r, want, when, var):
    if not isinstance(r, (PList, tuple)) or (isinstance(r, PList) and r.segs): raise OutOfSubset('row %r' % (r,))
    items = list(r.items if isinstance(r, PList) else r)
    if len(items) != len(want): return [('a row has an entry per column', z3.BoolVal(False))]
    return [('column "%s"' % n, z3.ForAll([var], z3.Implies(when, same(S, x, y)))) for x, (n, y) in zip(items, want)]
def header(h, want):
    ok = isinstance(h, (PList, tuple)) and list(h.items if isinstance(h, PList) else h) == want
    return [('the columns are the documented ones', z3.BoolVal(ok))]
def ens_pools(S, a, r):
    out = one(S, 'csv', 1)
    w = S.ip.ghost.get('written', [])
    if len(w) != 1: return out
    head, c = rows_of(w[0][1])
    s = St(S, a.self)
    has, val = s.has, s.val
    out += where(S, a, w[0][2], 'pools') + header(head, POOL_HEAD)
    if c.var.sort() != I: raise OutOfSubset('rows over ' + str(c.var.sort()))
    k = c.var
    p = s.pool(k); g = lambda f: S.get(p, f)
    o = Obj('Agent', z3.Select(s.aval, g('owner')), None, True)
    want = list(zip(POOL_HEAD, [g('id'), g('owner'), r15(S.get(o, 'stake')), r15(g('pledge')), r15(g('stake')), r15(S.get(o, 'cost')), r15(g('cost')), r15(g('_margin')), g('potential_profit'), g('desirability')]))
    return out + [('one row per open pool', z3.ForAll([k], c.guard == z3.Select(has, k)))] + row(S, c.elem, want, z3.Select(has, k), k)
def splits(S, m, ag):
    return (1 + S.get(S.get(m, 'reward_scheme'), 'a0')) * (1 - S.get(m, 'extra_pool_cost_fraction')) * S.get(ag, 'cost') - S.get(ag, 'stake') * S.get(S.get(m, 'reward_scheme'), 'a0')
def ens_agents(S, a, r):
    ip = S.ip
    out = one(S, 'csv', 1)
    w = ip.ghost.get('written', [])
    if len(w) != 1: return out
    head, c = rows_of(w[0][1])
    out += where(S, a, w[0][2], 'stakeholders') + header(head, AGENT_HEAD)
    if c.var.sort() != I: raise OutOfSubset('rows over ' + str(c.var.sort()))
    s = St(S, a.self)
    k = c.var; m = a.self
    n = S.get(m, 'n')
    if c.lo is None: return out + [('the rows are in the order of the ids', z3.BoolVal(False))]
    ag = s.agent(k); st = S.get(ag, 'strategy'); none = st.term == null_of('Strategy')
    own = S.get(st, 'owned_pools')
    has, val, _, _ = ip.dget(own)
    b = ip.reg.fresh_bound(I)
    cnt = ip.reg.make('CNT', b, z3.Select(has, b), None, ())
    tot = ip.reg.make('SUM', b, z3.Select(has, b), S.get(Obj('Pool', z3.Select(val, b), None, True), 'stake'), ())
    status = Opq('ite', [none, 'Abstainer', Opq('ite', [cnt > 0, 'Operator', 'Delegator'])])
    want = list(zip(AGENT_HEAD, [k, r15(S.get(ag, 'stake')), r15(S.get(ag, 'cost')), r15(v_pp(S, _X(reward_scheme=S.get(m, 'reward_scheme'), pledge=S.get(ag, 'stake'), cost=S.get(ag, 'cost')))),
                             status, z3.If(none, 0, cnt), z3.If(none, 0, tot), splits(S, m, ag), Opq('ite', [splits(S, m, ag) > 0, 'YES', 'NO'])]))
    on = z3.And(k >= 0, k < n)
    return out + [('one row per agent, in the order of the ids', z3.And(zi(c.lo) == 0, zi(c.hi) == n, z3.ForAll([k], z3.Implies(on, c.guard))))] + row(S, c.elem, want, on, k)
def req_agents(S, a):
    s = St(S, a.model)
    q = lambda k: S.get(s.agent(k), 'strategy')
    ip = S.ip
    owned = lambda k: S.get(q(k), 'owned_pools')
    def nonnull(k, j):
        has, val, _, _ = ip.dget(owned(k))
        return z3.Implies(z3.And(z3.Select(s.ahas, k), q(k).term != null_of('Strategy'), z3.Select(has, j)), z3.Select(val, j) != null_of('Pool'))
    b = ip.reg.fresh_bound(I)
    return req(S, a) + [('there are n agents', ip.reg.make('CNT', b, z3.Select(s.ahas, b), None, ()) == S.get(a.model, 'n')),
                        ('the pools listed exist', S.forall(['int', 'int'], nonnull, pats=lambda k, j: [[z3.Select(ip.dget(owned(k))[1], j)]])),
                        ('strategies list pools', S.forall(['int'], lambda k: z3.Implies(z3.And(z3.Select(s.ahas, k), q(k).term != null_of('Strategy')), S.get(q(k), 'owned_pools').term != null_of('D[int,Pool]')), pats=lambda k: [z3.Select(s.aval, k)]))]
class Ren:
    def __init__(self, a): self.model = a.self
# ---------------------------------------------------------------- descriptors
NK = z3.Const('NAKAMOTO_NOW', I)
def s_nak(ip, env, w): return NK
def ens_desc(S, a, r):
    ip = S.ip
    w = ip.ghost.get('written', [])
    out = one(S, 'json', 1)
    if len(w) != 1: return out
    d = w[0][1]
    if not isinstance(d, PDict) or d.ref is not None or d.fd is not None: raise OutOfSubset('descriptors %r' % (d,))
    s = St(S, a.self)
    m = a.self
    conv = S.get(m, 'consecutive_idle_steps') >= S.get(m, 'iterations_after_convergence')
    want = {'Equilibrium reached': Opq('ite', [conv, 'Yes', 'No']), 'Pool count': s.n(), 'Operator count': s.operators(), 'Nakamoto coefficient': NK, 'Total pledge fraction': ROUNDN(zr(s.sum('pledge')), z3.IntVal(4))}
    out += [('it is written in the folder of the run', z3.BoolVal(isinstance(w[0][2], Opq) and ('obj', 'opaque', S.get(m, 'directory').term.sexpr()) in flat(w[0][2].key())))]
    return out + [('"%s"' % k, same(S, d.items[k], v) if k in d.items else z3.BoolVal(False)) for k, v in want.items()]
# ---------------------------------------------------------------- metrics and tracker
def ens_metrics(S, a, r):
    w = S.ip.ghost.get('csv', [])
    dc = S.get(a.self, 'datacollector')
    return [('the file is written exactly once', z3.BoolVal(len(w) == 1)),
            ('it holds what was collected', z3.BoolVal(len(w) == 1 and isinstance(w[0][0], Opq) and ('collected',) + (vkey(dc),) == w[0][0].key()))] + \
           ([('it is written in the folder of the run', z3.BoolVal(('obj', 'opaque', S.get(a.self, 'directory').term.sexpr()) in flat(vkey(w[0][1][0]))))] if len(w) == 1 and w[0][1] else [])
def m_frame(ip, o, a, kw, w): return Opq('collected', [o])
def m_csv(ip, o, a, kw, w):
    ip.ghost.setdefault('csv', []).append((o, list(a) or [kw.get('path_or_buf')]))
    return None
def ens_tracker(S, a, r):
    ip = S.ip
    w = ip.ghost.get('written', [])
    out = one(S, 'line', 1)
    if len(w) != 1: return out
    head, line = w[0][1]
    items = lambda x: list(x.items if isinstance(x, PList) else x)
    h, l = items(head), items(line)
    s = St(S, a.self); m = a.self; rs = S.get(m, 'reward_scheme')
    want = {'id': S.get(m, 'seq_id'), 'n': S.get(m, 'n'), 'k': S.get(rs, '_k'), 'a0': S.get(rs, 'a0'), 'phi': S.get(m, 'extra_pool_cost_fraction'), 'activation order': S.get(m, 'agent_activation_order'),
            '#pools': s.n(), '#operators': s.operators(), 'nakamoto coeff': NK}
    if len(h) != len(l): return out + [('the line has an entry per column', z3.BoolVal(False))]
    return out + [('tracker column "%s"' % k, same(S, l[h.index(k)], v) if k in h else z3.BoolVal(False)) for k, v in want.items()]
CSV = {'logic.helper:export_csv_file': rec('csv'), 'logic.helper:export_json_file': rec('json'), 'logic.helper:write_to_csv': rec('line'), 'logic.model_reporters:get_nakamoto_coefficient': s_nak}
C25 = [Contract('C25.export_pools_file', SIM + 'export_pools_file', {'self': 'Model'}, requires=lambda S, a: req(S, Ren(a)), ensures=ens_pools, stubs=CSV, title='the pools file has one row per open pool, with its actual attributes'),
       Contract('C25.export_agents_file', SIM + 'export_agents_file', {'self': 'Model'}, requires=lambda S, a: req_agents(S, Ren(a)), ensures=ens_agents, stubs=CSV, title='the stakeholders file has one row per agent, in id order, with its actual attributes'),
       Contract('C25.export_final_state_desc_file', SIM + 'export_final_state_desc_file', {'self': 'Model'}, requires=lambda S, a: req(S, Ren(a)), ensures=ens_desc, stubs=CSV, title='the final descriptors state the final state'),
       Contract('C25.export_metrics_file', SIM + 'export_metrics_file', {'self': 'Model'}, ensures=ens_metrics, stubs=CSV, title='the metrics file holds what was collected'),
       Contract('C25.append_to_experiment_tracker', SIM + 'append_to_experiment_tracker', {'self': 'Model'}, requires=lambda S, a: req(S, Ren(a)), ensures=ens_tracker, stubs=CSV, title='the line in the experiment tracker states the final state')]
# ---------------------------------------------------------------- the files themselves
def logged(S, a, want):
    l = files.log(S.ip)
    ok = len(l) == len(want) and all(x[0] == y[0] and vkey(x[1]) == vkey(a.filepath) and (x[2] == y[1] if x[0] == 'open' else vkey(x[2]) == vkey(y[1])) for x, y in zip(l, want))
    return z3.BoolVal(ok)
C25 += [Contract('C25.csv', H + 'export_csv_file', {'rows': 'opaque', 'filepath': 'str'}, ensures=lambda S, a, r: [('the file holds exactly the rows', logged(S, a, [('open', 'w'), ('writerows', a.rows)]))], callmode='never', title='a csv file holds exactly the rows given'),
        Contract('C25.json', H + 'export_json_file', {'data': 'opaque', 'filepath': 'str'}, ensures=lambda S, a, r: [('the file holds exactly the data', logged(S, a, [('open', 'w'), ('json', a.data)]))], callmode='never', title='a json file holds exactly the data given'),
        Contract('C25.line', H + 'write_to_csv', {'filepath': 'str', 'header': 'opaque', 'row': 'opaque'}, callmode='never', title='a line is added to a csv file, below its header',
                 ensures=lambda S, a, r: [('the line is added, after a header if the file was empty', z3.If(z3.And(files.exists0(S.ip, a.filepath), files.size0(S.ip, a.filepath) != 0), logged(S, a, [('open', 'a'), ('writerow', a.row)]),
                                                                                                       logged(S, a, [('open', 'a'), ('writerow', a.header), ('writerow', a.row)])))])]
def cfg(w):
    files.install(w)
    w.opq_methods['get_model_vars_dataframe'] = m_frame
    w.opq_methods['to_csv'] = m_csv
CONFIG = {'C25': cfg}
