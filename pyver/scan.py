"""Frame conditions over the whole program: which functions may write an attribute or call a function at all.
Decided on the syntax of every source file the simulation consists of.  A writer or caller that is not listed is not taken
for a violation: the claim is then undecided (bounded check only)."""
import ast, os, time
from .source import *

FILES = ('logic.activations', 'logic.helper', 'logic.model_reporters', 'logic.pool', 'logic.reward_schemes', 'logic.sim',
         'logic.stakeholder', 'logic.stakeholder_profiles', 'logic.strategy', 'custom_batchrunner', 'main')

class Scan:
    """writes: {attribute: [functions that may write it]};  calls: {function name: [functions that may call (or mention) it]};
    dynamic: functions that may use setattr / __dict__ / vars()[..] (their effect is specified elsewhere)"""
    def __init__(self, key, writes=None, calls=None, dynamic=(), title=''):
        self.key, self.writes, self.calls, self.dynamic, self.title, self.target = key, writes or {}, calls or {}, set(dynamic), title, 'whole program'

def functions(prog):
    """(qualified name, node) for every function, plus the rest of each module"""
    for n in FILES:
        m = prog.module(n)
        if m is None: continue
        def go(node, prefix):
            for st in node.body if hasattr(node, 'body') and isinstance(node.body, list) else []:
                if isinstance(st, ast.ClassDef): yield from go(st, prefix + [st.name])
                elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = '.'.join(prefix + [st.name])
                    if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in st.decorator_list): q += '.setter'
                    yield n + ':' + q, st
                else: yield n + ':' + '.'.join(prefix + ['<body>']), st
        yield from go(m.tree, [])

def scan(prog, con, out):
    fs = list(functions(prog))
    callers = {}
    for q, node in fs:
        for x in ast.walk(node):
            nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
            if nm: callers.setdefault(nm, set()).add(q)
    def ok(q, allowed, depth=0):
        """listed, or a helper that only listed functions mention"""
        if q in allowed: return True
        if depth > 3 or '<body>' in q: return False
        n = q.split(':')[1].split('.')
        n = n[-2] if n[-1] == 'setter' else n[-1]
        if n.startswith('__'): return False
        cs = callers.get(n, set()) - {q}
        return bool(cs) and all(ok(c, allowed, depth + 1) for c in cs)
    bad = []
    for q, node in fs:
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in con.writes and not ok(q, con.writes[x.attr]):
                bad.append('%s writes .%s' % (q, x.attr))
            nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
            if nm in con.calls and isinstance(getattr(x, 'ctx', None), ast.Load) and not ok(q, con.calls[nm]): bad.append('%s uses %s' % (q, nm))
            if con.writes and nm in ('setattr', 'delattr', '__dict__', '__setattr__', 'exec', 'eval', '__setstate__') and not ok(q, con.dynamic): bad.append('%s uses %s' % (q, nm))
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value in con.writes and not ok(q, con.writes[x.value]) and not ok(q, con.dynamic) and x.value.isidentifier() and con.writes and '_' in x.value:
                bad.append('%s mentions the name %r' % (q, x.value))
    n = len(con.writes) + len(con.calls)
    out['obligations'] = n
    if bad: raise OutOfSubset('; '.join(sorted(set(bad))[:5]))
    out['proved'] = n
    out['backends'] = {'frame scan': n}
    out['paths'] = len(fs)
    out['status'] = 'proved'
