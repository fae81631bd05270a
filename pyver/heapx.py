"""Copies of heap structures."""
from fractions import Fraction
import z3
from .vals import *
from .source import *

def deepcopy(ip, v, where):
    h = ip.world.deepcopies.get(v.fam) if isinstance(v, Obj) else None
    if h: return h(ip, v, where)
    if isinstance(v, PDict) and v.ref is not None: return deepcopy(ip, v.ref, where)
    if isinstance(v, PDict) and v.fd is None:
        d = PDict(); d.default = v.default
        d.items = {k: deepcopy(ip, x, where) for k, x in v.items.items()}
        return d
    if isinstance(v, PList) and not v.segs: return PList([deepcopy(ip, x, where) for x in v.items])
    if isinstance(v, (int, Fraction, str, bool, type(None), tuple, Opq)) or is_z3(v): return v
    raise OutOfSubset('deepcopy at ' + where)

def copy_pool(ip, o, where):
    """deepcopy of one pool: a new pool with the same attributes and a ledger of its own"""
    o = ip.nonnull(o, where)
    n = ip.alloc('Pool', ip.world.exact_class('Pool'), 'copy')
    for f, t in list(ip.world.schema['Pool'].items()):
        v = ip.getfield(o, f)
        if is_dict_type(t): v = ip.world.ext.method(ip, v, 'copy', [], {}, where)
        elif t not in BASE and t != 'opaque': raise OutOfSubset('deepcopy of a pool that refers to %s' % t)
        ip.setfield(n, f, v)
    return n

def copy_pools(ip, d, where):
    """deepcopy of a dictionary of pools (no two entries hold the same pool)"""
    from .symspec import quant
    has, val, K, V = ip.dget(d)
    ks = sort_of(K)
    P = fam_sort('Pool')
    x, y = z3.Const(ip.fresh_name('k1'), ks), z3.Const(ip.fresh_name('k2'), ks)
    ip.oblige('the entries of the copied dictionary are different pools, %s' % where,
              z3.Implies(z3.And(z3.Select(has, x), z3.Select(has, y), z3.Select(val, x) == z3.Select(val, y)), x == y), assume=False)
    nd = ip.alloc(d.fam)
    k = z3.Const(ip.fresh_name('k'), ks)
    o = z3.Const(ip.fresh_name('o'), P)
    nv = ip.fresh('copies', z3.ArraySort(ks, P))
    inv = z3.Function(ip.fresh_name('copied_from'), P, ks)
    al = ip.harr('Pool', '$alive')
    sel = z3.Select
    hk, c = sel(has, k), sel(nv, k)
    ip.assume(quant([k], z3.Implies(hk, z3.And(c != null_of('Pool'), z3.Not(sel(al, c)), inv(c) == k)), [c]))
    al2 = ip.fresh('H_Pool_$alive', al.sort())
    ip.assume(quant([o], z3.Implies(sel(al, o), sel(al2, o)), [sel(al, o), sel(al2, o)]))
    ip.assume(quant([k], z3.Implies(hk, sel(al2, c)), [c]))
    ip.heap[('Pool', '$alive')] = al2
    for f, t in list(ip.world.schema['Pool'].items()):
        a = ip.harr('Pool', f)
        b = ip.fresh('H_Pool_' + f, a.sort())
        ip.assume(quant([o], z3.Implies(sel(al, o), sel(b, o) == sel(a, o)), [sel(b, o), sel(a, o)]))
        if is_dict_type(t):
            D = fam_sort(t)
            dal, dhas, dval = ip.harr(t, '$alive'), ip.harr(t, 'has'), ip.harr(t, 'val')
            dal2, dhas2, dval2 = ip.fresh('H_al', dal.sort()), ip.fresh('H_has', dhas.sort()), ip.fresh('H_val', dval.sort())
            q = z3.Const(ip.fresh_name('d'), D)
            for m, m2 in ((dhas, dhas2), (dval, dval2)):
                ip.assume(quant([q], z3.Implies(sel(dal, q), sel(m2, q) == sel(m, q)), [sel(m2, q), sel(m, q)]))
            ip.assume(quant([q], z3.Implies(sel(dal, q), sel(dal2, q)), [sel(dal, q), sel(dal2, q)]))
            new, old = sel(b, c), sel(a, sel(val, k))
            ip.assume(quant([k], z3.Implies(hk, z3.And(new != null_of(t), z3.Not(sel(dal, new)), sel(dal2, new), sel(dhas2, new) == sel(dhas, old), sel(dval2, new) == sel(dval, old))), [c]))
            ip.heap[(t, '$alive')], ip.heap[(t, 'has')], ip.heap[(t, 'val')] = dal2, dhas2, dval2
        elif t in BASE or t == 'opaque':
            ip.assume(quant([k], z3.Implies(hk, sel(b, c) == sel(a, sel(val, k))), [c]))
        else: raise OutOfSubset('deepcopy of a pool that refers to %s' % t)
        ip.heap[('Pool', f)] = b
    ip.dset(nd, has, nv)
    return nd
def install(w):
    w.deepcopies['Pool'] = copy_pool
    w.deepcopies['D[int,Pool]'] = copy_pools
