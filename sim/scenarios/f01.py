"""Parallel evaluation of fields: the values do not depend on the number of cores or on how the threads are scheduled."""
from .. import common as Z
from .. import env
from .. import models as M

RUNS = dict(quick=3500, thorough=20000)
WALL = dict(quick=60, thorough=780)
RULE = 'one simulated evaluation = one seed: model, points, core counts and every thread switch come from it; non-trivial when at least two threads took turns'
DISTINCT = 'distinct sequences of thread switches (hash over who ran, for how many memory accesses)'
REAL = Z.REAL
STUB = ['OpenMP runtime and pthreads scheduling (libsim: one runnable thread at a time, switches at memory accesses chosen by the seed)', 'malloc (contents of fresh memory chosen by the seed)']
ASSUME = ['threads interact through memory accesses of the instrumented extensions only', 'sequentially consistent memory']
TIME = 'no clock in the simulated code; time is measured in scheduling points, see counters.points'


def gen(rng, tier, i):
    model = Z.gen_model(rng, 'sssmb', mn=(2, 5) if rng.random() < .2 else (2, 4))
    rounds = []
    op = Z.gen_op(rng, model, Z.FIELD_KINDS[model['kind']])
    if op.get('pts') is not None and rng.random() < .3:
        op['pts'] = [[round(rng.random(), 3), round(rng.random(), 3)] for _ in range(rng.choice([1, 2, 11, 23, 40]))]
    for _ in range(rng.randint(2, 4)):
        rounds.append(dict(cores=rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 13]), sched=dict(seed=rng.getrandbits(60), maxq=rng.choice([3, 30, 300, 3000]),
                      grant_p=rng.choice([0, 0, 20, 60]), threads=rng.choice([1, 2, 3, 4, 8])), fill=rng.choice([None, rng.getrandbits(60)])))
    return dict(model=model, op=op, rounds=rounds)


def preload():
    M.kappa_probe()


def run(plan, ctx):
    model, op = plan['model'], plan['op']
    obj, parts = Z.make(model)
    exp = Z.expect(model, op)
    where = Z.where(model, op)
    base = None
    order = sorted(exp)
    for q, rd in enumerate([dict(cores=1, sched=None, fill=None)] + plan['rounds']):
        Z.set_cores(obj, model, rd['cores'])
        fn = lambda: Z.perform(obj, model, op)
        if rd['sched'] is None:
            got = fn()
        else:
            with env.heap(fill=rd['fill']) as hp:
                res, st, tr = env.run_threads([fn], rd['sched'])
            ctx.hashes.append('%x' % st['hash'])
            ctx.traces.append([q - 1, tr])
            for k in ('points', 'switches', 'teams', 'short_teams'):
                ctx.counters[k] += st[k]
            ctx.faults['thread switches'] += st['switches']
            ctx.faults['smaller team than requested'] += st['short_teams']
            if rd['fill'] is not None:
                ctx.faults['fresh memory filled'] += hp.filled
            if st['switches'] > 1:
                ctx.nontrivial = True
            if res[0][0] == 'exc':
                raise res[0][1]
            got = res[0][1]
        g = Z.plain(got)
        ctx.observe(g)
        m = M.mismatch(got, exp)
        if m:
            kind = 'wrong-value' if q == 0 else 'wrong-value-in-parallel'
            ctx.violation(kind, '%d cores: %s' % (rd['cores'], m), where)
            return
        if base is None:
            base = g
        else:
            m = M.mismatch(g, dict(base, _scales=exp.get('_scales', {})), tol=1e-11)
            if m:
                ctx.violation('depends-on-cores-or-schedule', '%d cores against 1: %s' % (rd['cores'], m), where)
                return
    ctx.counters['evaluations'] += len(plan['rounds'])
    ctx.counters['cases %s' % where] += 1


def explicit(plan, res):
    tr = dict((q, t) for q, t in res.get('traces') or [])
    if not tr:
        return None
    last = max(tr)
    rd = plan['rounds'][last]
    if rd['sched'].get('events') is not None or len(tr[last]) > 5000:
        return None
    return Z.with_(plan, rounds=[dict(rd, sched=dict(rd['sched'], events=tr[last]))])


def shrink(plan):
    for l in Z.less_list(plan['rounds']):
        if l:
            yield Z.with_(plan, rounds=l)
    for i, rd in enumerate(plan['rounds']):
        if rd['fill'] is not None:
            yield Z.with_(plan, rounds=plan['rounds'][:i] + [dict(rd, fill=None)] + plan['rounds'][i + 1:])
        ev = rd['sched'].get('events')
        if ev is None:
            for c in (2, 3):
                if rd['cores'] > c:
                    yield Z.with_(plan, rounds=plan['rounds'][:i] + [dict(rd, cores=c)] + plan['rounds'][i + 1:])
        else:
            n = 0
            for l in Z.less_list(ev):
                n += 1
                if n > 60:
                    break
                yield Z.with_(plan, rounds=plan['rounds'][:i] + [dict(rd, sched=dict(rd['sched'], events=l))] + plan['rounds'][i + 1:])
    for o in Z.simpler_op(plan['op']):
        yield Z.with_(plan, op=o)
    for m in Z.simpler_model(plan['model']):
        yield Z.with_(plan, model=m)
