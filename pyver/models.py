"""Models of the external classes the program builds on (mesa scheduler / agent base classes, sortedcontainers)."""
import ast
import z3
from .vals import *
from .source import *

def install(w):
    from . import heapx
    heapx.install(w)
    # mesa.time.BaseScheduler.agents: the agents, in the order in which they were added
    w.base_attrs[('Sched', 'agents')] = lambda ip, o: DView(ip.getfield(o, '_agents'), 'values')
    w.obj_methods[('Sched', 'add')] = sched_add
    w.obj_methods[('Agent', 'super.__init__')] = agent_init

def sched_add(ip, o, a, kw, where):
    """mesa.time.BaseScheduler.add: files the agent under its unique id, which must be new"""
    d = ip.getfield(o, '_agents')
    g = ip.nonnull(a[0], where)
    has, val, K, V = ip.dget(d)
    k = ip.getfield(g, 'unique_id')
    ip.require(z3.Not(z3.Select(has, k)), 'Exception', 'agent with a known id added to the schedule, ' + where)
    ip.dset(d, z3.Store(has, k, z3.BoolVal(True)), z3.Store(val, k, g.term))
def agent_init(ip, o, a, kw, where):
    """mesa.Agent.__init__"""
    d = dict(zip(('unique_id', 'model'), a)); d.update(kw)
    ip.setfield(o, 'unique_id', d['unique_id']); ip.setfield(o, 'model', d['model'])
