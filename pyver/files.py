"""Files, csv and json, as far as the repository uses them: every operation on a file is recorded in order.

A file is named by its path (equal paths, same file).  Its content on entry is an unknown text, if it exists (EXISTS)."""
import z3
from .vals import *
def _B(): return z3.BoolSort()
def exists0(ip, name): return z3.Function('FILE_EXISTS', fam_sort('opaque'), z3.BoolSort())(ip.opaque(name))
def text0(ip, name): return Opq('text of file', [name])
def size0(ip, name): return z3.Function('FILE_SIZE', fam_sort('opaque'), z3.IntSort())(ip.opaque(name))
def log(ip): return ip.ghost.setdefault('file log', [])
def state(ip): return ip.ghost.setdefault('file state', {})
def open_(ip, a, kw, w):
    if ip.bounds or ip.silent and False: raise OutOfSubset('file access under a bound variable at ' + w)
    name = a[0] if a else kw['file']
    mode = a[1] if len(a) > 1 else kw.get('mode', 'r')
    if not isinstance(mode, str) or 'b' in mode or '+' in mode: raise OutOfSubset('open mode %r at %s' % (mode, w))
    mode = mode.replace('t', '')
    k = vkey(name); st = state(ip)
    ex = True if k in st else exists0(ip, name)
    if mode == 'r': ip.require(ex if not isinstance(ex, bool) else z3.BoolVal(ex), 'FileNotFoundError', w)
    elif mode == 'x': ip.require(z3.Not(ex) if not isinstance(ex, bool) else z3.BoolVal(not ex), 'FileExistsError', w)
    if mode in ('w', 'x'): st[k] = []
    elif mode == 'a' and k not in st: st[k] = [('before', name)]
    elif mode not in ('r', 'a'): raise OutOfSubset('open mode %r at %s' % (mode, w))
    if mode != 'r': log(ip).append(('open', name, mode))
    return Opq('file', [name, mode])
def method(ip, o, name, a, kw, w):
    """operations on an open file or a csv writer; NotImplemented for anything else"""
    if o.tag == 'file':
        fname, mode = o.parts
        k = vkey(fname); st = state(ip)
        if name == 'close': return None
        if name == 'flush': return None
        if name == 'read' and not a and mode == 'r':
            if k not in st: return text0(ip, fname)
            if len(st[k]) == 1 and st[k][0][0] == 'write': return st[k][0][1]
            raise OutOfSubset('reading back a file at ' + w)
        if name == 'write' and mode != 'r':
            log(ip).append(('write', fname, a[0])); st[k] = st[k] + [('write', a[0])]
            return ip.fresh('written', z3.IntSort())
        if name == 'tell' and mode == 'a' and st.get(k) == [('before', fname)]:
            ip.assume(size0(ip, fname) >= 0)
            return z3.If(exists0(ip, fname), size0(ip, fname), 0)
        raise OutOfSubset('%s of a file at %s' % (name, w))
    if o.tag == 'csvwriter':
        f = o.parts[0]
        if f.parts[1] == 'r': raise OutOfSubset('writing to a file open for reading at ' + w)
        if name in ('writerow', 'writerows'):
            log(ip).append((name, f.parts[0], a[0])); st = state(ip); k = vkey(f.parts[0]); st[k] = st[k] + [(name, a[0])]
            return None
        raise OutOfSubset('%s of a csv writer at %s' % (name, w))
    if o.tag == 'path':
        if name == 'mkdir':
            ok = kw.get('exist_ok', False)
            if not isinstance(ok, bool): raise OutOfSubset('mkdir at ' + w)
            ip.ghost['mkdir tried'] = o.parts[0]
            if not ok: ip.require(z3.Not(exists0(ip, o.parts[0])), 'FileExistsError', w)
            log(ip).append(('mkdir', o.parts[0], ok))
            return None
        if name == 'exists': return exists0(ip, o.parts[0])
        raise OutOfSubset('%s of a path at %s' % (name, w))
    return NotImplemented
def csvwriter(ip, a, kw, w):
    if not (isinstance(a[0], Opq) and a[0].tag == 'file'): raise OutOfSubset('csv.writer at ' + w)
    return Opq('csvwriter', [a[0]])
def json_dump(ip, a, kw, w):
    f = a[1] if len(a) > 1 else kw['fp']
    if not (isinstance(f, Opq) and f.tag == 'file') or f.parts[1] == 'r': raise OutOfSubset('json.dump at ' + w)
    log(ip).append(('json', f.parts[0], a[0])); st = state(ip); k = vkey(f.parts[0]); st[k] = st[k] + [('json', a[0])]
def path_(ip, a, kw, w):
    if len(a) == 1 and isinstance(a[0], Opq) and a[0].tag == 'path': return a[0]
    if len(a) == 1: return Opq('path', [a[0]])
    raise OutOfSubset('Path at ' + w)
def cwd_(ip, a, kw, w): return Opq('path', [Opq('cwd')])
def join(a, b):
    """path / name"""
    return Opq('path', [Opq('join path', [a.parts[0], b.parts[0] if isinstance(b, Opq) and b.tag == 'path' else b])])
def install(w):
    w.ext_calls.update({'builtins.open': open_, 'csv.writer': csvwriter, 'json.dump': json_dump, 'pathlib.Path': path_, 'pathlib.Path.cwd': cwd_})
