"""Which contracts decide which property."""
import importlib
ASSUMPTIONS = [
    'floating-point arithmetic is treated as exact real arithmetic, and float literals as the decimal numbers written (rounding is outside the proofs; the bounded checks run on real floats with tolerances)',
    'the Python subset has the semantics implemented in /verif/pyver; attributes have the types declared in pyver/world.py',
]
PARTS = {}
META = {}
def prop(pid, *parts, level='proof', **kw):
    """parts: 'module' or 'module:GROUP' (GROUP defaults to the property); contracts of one part apply at each other's calls"""
    PARTS[pid] = [(p.split(':') + [pid])[:2] for p in parts]
    META[pid] = dict(level=level, quick_s=30, **kw)
for p in ('C01', 'C02', 'C03', 'C04'): prop(p, 'scalar')
prop('C05', 'scalar', 'pools:POOL')
prop('C06', 'scalar', 'pools:AGENT')
prop('C07', 'moves')
prop('C11', 'utility')
prop('C12', 'ids', 'plan:MOVE')
prop('C13', 'setup')
prop('C14', 'runs')
prop('C17', 'metrics')
prop('C18', 'nakamoto')
prop('C19', 'gini', 'metrics')
prop('C16', 'rounds')
prop('C20', 'ranks')
prop('C23', 'cli')
prop('C26', 'plan:MOVE', 'delegate:MOVES', 'ledger:LEDGER')
prop('C27', 'plan', 'plan:SEARCH')
prop('C08', 'delegate:DELEGATE', 'delegate:MOVES')
prop('C09', 'ledger:LEDGER')
prop('C24', 'folders')
prop('C25', 'export')
prop('C10', 'rankings:MOVE', 'rankings:DECIDE', 'rankings:KEYS', 'rankings:FR10', 'phase:C15', 'start:C10', trusted=['sortedcontainers.SortedList keeps its members in order of their keys, and finds them, as long as the keys do not change', 'planned pools are copies, not the open pools themselves (C27)'])
prop('C15', 'phase:C15', 'start:C15')
prop('C21', 'start:C21', 'setup:SEEDED', 'draws:DRAWS', 'draws:SOURCES', trusted=['functions that use no source of randomness, time or process state (frame scan) are deterministic functions of the model state', 'mesa schedulers draw from model.random only'])
for i in [22]: prop('C%02d' % i, level='other')
def contracts(pid):
    """[(contract, its group, configuration)]"""
    out = []
    for mod, g in PARTS[pid]:
        m = importlib.import_module('contracts.' + mod)
        grp, cfg = getattr(m, g), getattr(m, 'CONFIG', {}).get(g)
        out += [(c, grp, cfg) for c in grp]
    return out
NOT_APPLICABLE = {
    'C28': 'the metric calls the external mixed-integer solver APOPT (a closed-source binary, reached through GEKKO, in a temporary folder): the result is computed outside the Python code, its solver gives no optimality contract that could be assumed without assuming the property, and it stops at a relative gap; no contract on the repository code can express or decide optimality',
    'C29': 'the property is about arbitrary interleavings of worker processes that append to one file and about the operating system\'s process pool: no contract on a sequential function expresses it, and the family has no account of concurrency here; what each single execution does is covered by C14, C22 and C24',
    'C30': 'an empirical, statistical expectation about the emergent result of long simulations (close to k pools, nearly equal size): it is not a contract of any function, has no crisp statement, and is false for some inputs',
}
