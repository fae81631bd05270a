from rac.base import *
from rac.simkit import *
from rac.p_c22 import Rec, LOG
import pathlib
RULE = 'sequences of single and batch runs from every state of the stored serial number, with and without names, names already taken; constructed identifiers for many parameters'
def tree(): return sorted(str(p) for p in pathlib.Path('output').rglob('*')) if os.path.isdir('output') else []
def stored():
    try:
        with open('sequence.dat') as f: return int(f.read())
    except FileNotFoundError: return None
@check
def runs(c):
    import custom_batchrunner as cb, logic.helper as h
    with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
        if c['start'] is not None:
            with open('sequence.dat', 'w') as f: f.write(str(c['start']))
        last = c['start'] or 0
        for r in c['seq']:
            dirs0 = set(os.listdir('output')) if os.path.isdir('output') else set()
            s0 = stored()
            if r['t'] == 'single':
                kw = dict(n=2, k=1, seed=1, max_iterations=1, stake_distr_source='flat', generate_graphs=False)
                kw.update(r['kw'])
                if r.get('taken'):
                    nm = r['kw'].get('execution_id') or None
                    if nm is None: continue
                    p = pathlib.Path('output') / ('%d-%s' % (last + 1, nm)); p.mkdir(parents=True); (p / 'args.json').write_text('precious')
                    try: make_sim(kw_ := {k: v for k, v in kw.items() if k != 'generate_graphs'}); ok = True
                    except FileExistsError: ok = False
                    need(not ok or (p / 'args.json').read_text() == 'precious', 'a run wrote into a folder that existed already')
                    need((p / 'args.json').read_text() == 'precious' and len(list(p.iterdir())) == 1, 'a run wrote into a folder that existed already')
                    last = stored() if stored() is not None else last
                    continue
                m = make_sim({k: v for k, v in kw.items() if k != 'generate_graphs'})
                last += 1
                need(m.seq_id == last, 'serial number %r after %r' % (m.seq_id, last - 1))
                need(stored() == last, 'stored serial number is %r, should be %r' % (stored(), last))
                new = set(os.listdir('output')) - dirs0
                need(new == {m.execution_id} and m.execution_id.startswith('%d-' % last), 'run %d creates %s' % (last, new))
                if r['kw'].get('execution_id'): need(m.execution_id == '%d-%s' % (last, r['kw']['execution_id']), 'run named %r' % m.execution_id)
                need(str(m.directory) == str(pathlib.Path.cwd() / 'output' / m.execution_id) and os.path.isdir(m.directory), 'folder %s' % m.directory)
                if r.get('finish'):
                    before = {x: sorted(os.listdir('output/' + x)) for x in dirs0 if os.path.isdir('output/' + x)}
                    m.run_model()
                    need({x: sorted(os.listdir('output/' + x)) for x in before} == before, 'a run wrote into the folder of another one')
            elif r['t'] == 'batch':
                del LOG[:]
                res, path = cb.custom_batch_run(Rec, parameters=dict(a=[1, 2]), batch_run_id=r['id'], display_progress=False)
                last += 1
                need(stored() == last, 'stored serial number is %r, should be %r' % (stored(), last))
                need(set(os.listdir('output')) - dirs0 == {'%d-%s' % (last, r['id'])}, 'batch %d creates %s' % (last, set(os.listdir('output')) - dirs0))
            elif r['t'] == 'inbatch':
                m = make_sim(dict(n=2, k=1, seed=1, stake_distr_source='flat', seq_id=r['seq'], execution_id='x%d' % len(dirs0), parent_dir=r['parent']))
                need(stored() == s0, 'an execution of a batch changed the stored serial number from %r to %r' % (s0, stored()))
                need(m.seq_id == r['seq'], 'serial number %r' % m.seq_id)
                need(str(m.directory) == str(pathlib.Path.cwd() / 'output' / r['parent'] / ('%d-x%d' % (r['seq'], len(dirs0)))), 'folder %s' % m.directory)
@check
def ident(c):
    import logic.helper as h
    a, b = h.generate_execution_id(dict(c['args'])), h.generate_execution_id(json.loads(json.dumps(c['args'])))
    need(a == b, 'the identifier of the same parameters differs')
    need(isinstance(a, str) and len(a) <= 100, 'identifier of %d characters' % len(a))
    for ch in '/\\': need(ch not in a, 'identifier %r' % a)
@check
def ident_sim(c):
    ids = []
    for _ in range(2):
        with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
            if _:
                with open('sequence.dat', 'w') as f: f.write('41')
            random.seed(_)
            m = make_sim(c['kw'])
            ids.append(m.execution_id.split('-', 1))
    need(ids[0][1] == ids[1][1] and len(ids[0][1]) <= 100, 'the same parameters give identifiers %r and %r' % (ids[0][1], ids[1][1]))
    need([ids[0][0], ids[1][0]] == ['1', '42'], 'serial numbers %s' % [x[0] for x in ids])
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 3 == 0:
            keys = ['n', 'k', 'a0', 'source', 'profile', 'x', 'y'][:rng.randint(0, 7)]
            ctx.run('ident', dict(args={k: rng.choice([1, .3, 'Pareto', [1, 2, 3], list(range(rng.randint(0, 60))), None, True, 'z' * rng.randint(0, 150), 1e-9]) for k in keys})); continue
        if i % 7 == 0: ctx.run('ident_sim', dict(kw=gen_sim(rng, nmax=4))); continue
        seq = []
        for _ in range(rng.randint(1, 5)):
            t = rng.choice(['single', 'single', 'batch', 'inbatch'])
            if t == 'single':
                kw = {}
                if rng.random() < .5: kw['execution_id'] = rng.choice(['a', 'temp2', 'run-1', 'b'])
                elif rng.random() < .3: kw['execution_id'] = 'temp' if False else ''
                seq.append(dict(t='single', kw=kw, taken=rng.random() < .2, finish=rng.random() < .15))
            elif t == 'batch': seq.append(dict(t='batch', id=rng.choice(['b', 'b2'])))
            else: seq.append(dict(t='inbatch', seq=rng.choice([0, 1, 7]), parent=rng.choice(['9-b%d' % rng.randint(0, 99), '8-c%d' % rng.randint(0, 99)])))
        ctx.run('runs', dict(start=rng.choice([None, None, 0, 1, 9, 99]), seq=seq))
