"""C12: pool ids are taken from a counter that only grows."""
import z3
from pyver.spec import Contract, Lemma
from pyver.scan import Scan
from pyver.vals import *
from .plan import MOVE
SIM = 'logic.sim:Simulation.'
ST = 'logic.stakeholder:Stakeholder.'
def ens_next(S, a, r):
    i0, i1 = S.get(a.self, 'id_seq'), S.new(a.self, 'id_seq')
    return [('the id is larger than every id given out before', S.eq(r, i0 + 1) if is_num(r) else z3.BoolVal(False)), ('and is the last one given out now', i1 == i0 + 1)]
def ens_init(S, a, r):
    return [('the sequence starts below the first id', S.new(a.self, 'id_seq') == 0)]
C12 = [Contract('C12.next', SIM + 'get_next_pool_id', {'self': 'Model'}, ensures=ens_next, modifies=[('Model', 'id_seq')], callmode='never', title='every id is new and larger than all before'),
       Contract('C12.init', SIM + 'initialize_pool_id_seq', {'self': 'Model'}, ensures=ens_init, modifies=[('Model', 'id_seq')], callmode='never', title='the id sequence starts at the beginning'),
       Scan('C12.frame', writes={'id_seq': [SIM + 'initialize_pool_id_seq', SIM + 'get_next_pool_id', SIM + 'rewind_pool_id_seq'], 'id': ['logic.pool:Pool.__init__']},
            calls={'initialize_pool_id_seq': [SIM + '__init__'], 'rewind_pool_id_seq': [ST + 'discard_draft_pools'], 'discard_draft_pools': []}, dynamic=[SIM + '__init__', SIM + 'change_phase'],
            title='nothing else moves the id sequence, and no pool changes its id')]
