from rac.base import *
from rac.simkit import *
RULE = 'stub agents that log their calls under SemiSimultaneousActivation with every number of agents, group size and both modes'
@check
def rounds(c):
    from logic.activations import SemiSimultaneousActivation
    from types import SimpleNamespace
    log = []
    class Ag:
        def __init__(s, i): s.unique_id = i
        def step(s): log.append(('s', s.unique_id))
        def advance(s): log.append(('a', s.unique_id))
    m = SimpleNamespace(random=random.Random(c['seed']))
    sch = SemiSimultaneousActivation(m, **({} if c['default'] else dict(simultaneous_moves=c['z'], all_agents_move=c['all'])))
    z, al = (5, True) if c['default'] else (c['z'], c['all'])
    for i in c['ids']: sch.add(Ag(i))
    orders = set()
    for r in range(c['rounds']):
        del log[:]
        t0 = (sch.steps, sch.time)
        sch.step()
        need((sch.steps, sch.time) == (t0[0] + 1, t0[1] + 1), 'the round counter went from %s to %s' % (t0, (sch.steps, sch.time)))
        groups, cur, mode = [], [], 's'
        acts = []
        for kind, i in log:                       # parse into blocks  s+ a+
            if kind == 's':
                if mode == 'a': groups.append((cur, acts)); cur, acts, mode = [], [], 's'
                cur.append(i)
            else: mode = 'a'; acts.append(i)
        if log: groups.append((cur, acts))
        n = len(c['ids'])
        for s, a in groups:
            need(sorted(s) == sorted(a) and len(set(s)) == len(s), 'a group decided as %s and acted as %s' % (s, a))
        done = [i for s, _ in groups for i in s]
        need(len(set(done)) == len(done), 'agents activated more than once: %s' % done)
        if al: 
            need(sorted(done) == sorted(c['ids']), 'agents activated: %s of %s' % (sorted(done), sorted(c['ids'])))
            sizes = [z] * (n // z) + ([n % z] if n % z else [])
        else: sizes = [min(z, n)] if n else []
        need([len(s) for s, _ in groups] == sizes, 'groups of sizes %s, should be %s' % ([len(s) for s, _ in groups], sizes))
        need(set(done) <= set(c['ids']), 'unknown agents')
        orders.add(tuple(done))
    if c['rounds'] >= 8 and len(c['ids']) >= 6: need(len(orders) > 1, 'the groups are not random: always %s' % list(orders)[:1])
@check
def in_sim(kw):
    with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
        m = make_sim(kw)
        n = kw['n']; plans, acts = [], []
        import logic.stakeholder_profiles as pr
        for a in m.get_agents_list():
            def st(a=a, o=a.step): plans.append(a.unique_id); o()
            def ad(a=a, o=a.advance): acts.append(a.unique_id); need(a.unique_id in plans, 'acted before deciding'); o()
            a.step, a.advance = st, ad
        for _ in range(3):
            del plans[:], acts[:]
            if not m.running or m.schedule.steps >= m.max_iterations: break
            m.schedule.step()
            need(sorted(plans) == list(range(n)) and sorted(acts) == list(range(n)), 'decided: %s, acted: %s' % (sorted(plans), sorted(acts)))
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more() and i < 60000:
        i += 1
        if i % 50 == 0: ctx.run('in_sim', gen_sim(rng, orders=['semisimultaneous'], phases=0, nmax=12)); continue
        n = rng.choice([0, 1, 2, 4, 5, 6, 9, 10, 11, rng.randint(0, 30)])
        ids = list(range(n)) if rng.random() < .7 else rng.sample(range(100), n)
        ctx.run('rounds', dict(seed=rng.randint(0, 9999), ids=ids, z=rng.choice([1, 2, 3, 5, 7, n or 1, n + 1]), all=rng.random() < .7, default=rng.random() < .2, rounds=rng.choice([1, 2, 8])))
