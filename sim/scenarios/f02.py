"""Separate models used by separate threads at the same time: each thread gets what it would get alone."""
import copy

from .. import common as Z
from .. import env
from .. import histories as H
from .. import models as M

RUNS = dict(quick=2500, thorough=20000)
WALL = dict(quick=60, thorough=780)
RULE = ('one simulation = one seed: the models, what every thread asks of its own model and every switch between threads (at lines of the library and at memory accesses of its '
        'compiled parts) come from it; non-trivial when threads were switched at least twice per thread')
DISTINCT = 'distinct sequences of thread switches (hash over who ran, for how many scheduling points)'
REAL = Z.REAL
STUB = ['thread scheduling: callers and OpenMP workers (libsim, one runnable thread at a time)', 'threading.Lock while simulating (waits are scheduler decisions)',
        'contents of fresh memory']
ASSUME = ['no two threads use the same model', 'sequentially consistent memory', 'numpy and scipy calls are atomic steps']
TIME = 'no clock in the simulated code; time is measured in scheduling points, see counters.points'


def preload():
    M.kappa_probe()


KINDS = dict(shell=['kC', 'kG', 'kM', 'kA', 'kT', 'fint', 'fext', 'pc', 'pd', 'uvw', 'strain', 'stress'],
             md=['kC', 'kG', 'kM', 'kT', 'conn', 'fint', 'fext', 'uvw', 'strain', 'stress', 'uvw_gauss', 'strain_gauss', 'stress_gauss'],
             bay=['kC', 'kG', 'kM', 'kA', 'fext', 'skin', 'stiff'])


def gen(rng, tier, i):
    jobs = []
    twin = rng.random() < .3
    # the callers are busy with the same things more often than chance would have it
    kind = rng.choice('smb') if rng.random() < .6 else None
    size = rng.randint(2, 3) if rng.random() < .5 else None
    theme = rng.choice([None, 1, 2])
    themes = {k: rng.sample(v, theme) for k, v in sorted(KINDS.items())} if theme else {}
    for j in range(rng.choice([2, 2, 3])):
        model = copy.deepcopy(jobs[0]['model']) if twin and jobs else Z.gen_model(rng, kind or 'ssmb', mn=(size, size) if size else (2, 3))
        if twin and model['kind'] == 'shell' and jobs:
            # the same panel but for what each caller changed
            H.apply_edit(model, H.gen_edit(rng, model))
        k = model['kind']
        busy = themes.get(k)
        if busy and 'fext' in busy:
            if k == 'shell':
                while len(model['spec']['loads']) < 5:
                    model['spec']['loads'].append(M.gen_load(rng))
            elif k == 'md':
                for p in model['spec']['panels']:
                    while len(p['loads']) < 2:
                        p['loads'].append(M.gen_load(rng))
        cur = copy.deepcopy(model)
        steps = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .2:
                e = H.gen_edit(rng, cur)
                H.apply_edit(cur, e)
                steps.append(dict(do='edit', e=e))
            kinds = busy or (Z.FIELD_KINDS[k] if rng.random() < .4 else None)
            steps.append(dict(do='op', op=Z.gen_op(rng, cur, kinds)))
        jobs.append(dict(model=model, steps=steps))
    return dict(jobs=jobs, fill=rng.choice([None, rng.getrandbits(60)]),
                sched=dict(seed=rng.getrandbits(60), maxq=rng.choice([5, 50, 500, 5000]), grant_p=rng.choice([0, 20]), threads=rng.choice([2, 3, 4])))


def caller(obj, parts, job):
    """What one thread does: (step, result, model at that moment)."""
    model = copy.deepcopy(job['model'])
    out = []
    for q, st in enumerate(job['steps']):
        if st['do'] == 'edit':
            H.apply_edit(model, st['e'], obj, parts)
        else:
            out.append((q, Z.perform(obj, model, st['op'], parts), copy.deepcopy(model)))
    return out


def run(plan, ctx):
    built = [Z.make(j['model']) for j in plan['jobs']]
    fns = [lambda o=o, p=p, j=j: caller(o, p, j) for (o, p), j in zip(built, plan['jobs'])]
    with env.heap(fill=plan['fill']) as hp:
        res, st, tr = env.run_threads(fns, plan['sched'])
    ctx.hashes.append('%x' % st['hash'])
    ctx.traces.append([0, tr])
    for k in ('points', 'switches', 'py_points', 'gil_deferrals', 'teams'):
        ctx.counters[k] += st[k]
    ctx.faults['thread switches'] += st['switches']
    if plan['fill'] is not None:
        ctx.faults['fresh memory filled'] += hp.filled
    ctx.nontrivial = st['switches'] >= 2 * len(fns)
    for (k, v), job in zip(res, plan['jobs']):
        if k == 'exc':
            raise v
        for q, got, model in v:
            op = job['steps'][q]['op']
            ctx.counters['operations'] += 1
            ctx.observe(Z.plain(got))
            m = M.mismatch(got, Z.expect(model, op))
            if m:
                # alone, does it give the right result?
                o, p = Z.make(job['model'])
                alone = dict((a, M.mismatch(g, Z.expect(mo, job['steps'][a]['op']))) for a, g, mo in caller(o, p, job))
                ctx.violation('wrong-result-with-others' if not alone[q] else 'wrong-result', m, Z.where(model, op))
                return


def explicit(plan, res):
    tr = res.get('traces') or []
    if not tr or plan['sched'].get('events') is not None or len(tr[0][1]) > 20000:
        return None
    return Z.with_(plan, sched=dict(plan['sched'], events=tr[0][1]))


def shrink(plan):
    if len(plan['jobs']) > 2:
        for l in Z.less_list(plan['jobs']):
            if len(l) > 1:
                yield Z.with_(plan, jobs=l)
    for i, j in enumerate(plan['jobs']):
        for l in Z.less_list(j['steps']):
            if any(s['do'] == 'op' for s in l):
                yield Z.with_(plan, jobs=plan['jobs'][:i] + [dict(j, steps=l)] + plan['jobs'][i + 1:])
    if plan['fill'] is not None:
        yield Z.with_(plan, fill=None)
    ev = plan['sched'].get('events')
    if ev is not None:
        n = 0
        for l in Z.less_list(ev):
            n += 1
            if n > 80:
                break
            yield Z.with_(plan, sched=dict(plan['sched'], events=l))
