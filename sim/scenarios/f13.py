"""Long sessions: the same work again and again, successful, refused, failed or interrupted, leaves behind the same each time: memory, objects, files, figures and threads do not pile up."""
import copy
import errno
import gc
import os
import threading
import tracemalloc

from .. import common as Z
from .. import env
from .. import histories as H
from .. import models as M
from . import f06
from . import f07
from . import f08
from . import f09
from . import f10
from . import f12

RUNS = dict(quick=700, thorough=12000)
WALL = dict(quick=70, thorough=780)
RULE = ('one simulated session = one seed: some work on a model (operations, edits, requests that do not fit, plots, saves, loads, ready-made analyses; each undisturbed or under a fault) repeated '
        'over several rounds, on one model or on a new one each round, with the same numbers or others each round; after every round what is left behind is measured; when it grows, 432 more '
        'rounds decide whether that goes on; non-trivial when a fault fired or three different kinds of step took part')
DISTINCT = 'distinct triples of step, fault and place where it struck, and distinct kinds of session'
REAL = Z.REAL + ['pickle, matplotlib with the Agg backend']
STUB = ['asynchronous exceptions, allocation failures, disk errors, failing load functions and matplotlib calls', 'Figure.tight_layout', 'repetition: 8 rounds stand for any number of them']
ASSUME = ['what is left after garbage collection, with all results dropped, is what counts', 'what matplotlib, NumPy and SciPy keep for themselves is not counted']
TIME = 'no clock in the simulated code; time is measured in rounds and lines of the library, see counters'
ROUNDS, LAST, STOPS = 8, 4, (22, 72, 192, 432)
NUMPY, LARGE = 389047, 128


def preload():
    f10.preload()
    f12.preload()


# ------------------------------------------------------------------ plans
def gen_disk(rng):
    k = rng.choice([1, 1, 1, 2, 3, 4, 5])
    return dict(at=rng.choice([0, 0, 1, 2, 3, 4, 5]), kind=k, err=f07.ERRS[rng.choice(sorted(f07.ERRS))] if k in (1, 5) else errno.ENOSPC, arg=rng.getrandbits(12),
                opmask=(1 << 4) if k in (2, 4) else 0)


def gen(rng, tier, i):
    if rng.random() < .03:
        job = f12.gen_job(rng, rng.choice(['cyl_new', 'cyl_static', 'bla_static', 't_comp', 't_freq']), small=True)
        return dict(model=None, mode='new', vary=False, steps=[dict(do='job', job=job, f=f12.gen_fault(rng) if rng.random() < .5 else None)])
    model = Z.gen_model(rng, 'ssmmbb', mn=(2, 3))
    mode = rng.choice(['new', 'new', 'same'])
    cur = copy.deepcopy(model)
    steps, saved = [], False
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < .12:
            if mode == 'new':
                e = H.gen_edit(rng, cur)
                H.apply_edit(cur, e)
                steps.append(dict(do='edit', e=e))
        elif r < .2:
            steps.append(dict(do='bad', b=f09.gen_bad(rng, cur)))
        elif r < .3:
            p = f10.gen_plot(rng, cur)
            if p['where'] == 'ax':
                p['where'] = 'save'
            steps.append(dict(do='plot', p=p, f=f10.gen_fault(rng, p) if rng.random() < .6 else None))
        elif r < .42 and model['kind'] != 'md':
            how = rng.choice(['clean', 'disk', 'disk', 'interrupt', 'broken'])
            st = dict(do='save', how=how, name=rng.choice(['wing', 'sub/wing']))
            if how == 'disk':
                st['fault'] = gen_disk(rng)
            elif how == 'interrupt':
                st.update(k=rng.randint(0, 25), exc=rng.choice(['KeyboardInterrupt', 'MemoryError']))
            elif how == 'broken':
                st['exc'] = rng.choice(['TypeError', 'MemoryError', 'KeyboardInterrupt'])
            steps.append(st)
            saved = True
        elif r < .52 and saved:
            steps.append(dict(do='load', op=Z.gen_op(rng, cur), fault=dict(at=rng.randint(0, 4), kind=rng.choice([1, 2, 4]), err=errno.EIO, arg=rng.getrandbits(12), opmask=f07.RD)
                              if rng.random() < .5 else None))
        elif r < .56:
            steps.append(dict(do='copy', op=Z.gen_op(rng, cur)))
        else:
            op = Z.gen_op(rng, cur)
            steps.append(dict(do='op', op=op, f=f08.gen_fault(rng, cur, op) if rng.random() < .4 else None))
    if not any(s['do'] in ('op', 'copy') for s in steps):
        steps.append(dict(do='op', op=Z.gen_op(rng, cur), f=None))
    return dict(model=model, mode=mode, vary=rng.random() < .6, steps=steps)


def varied(model, k):
    """The same structure, a little thicker and (a single panel) longer."""
    m = copy.deepcopy(model)
    s = m['spec']
    if m['kind'] == 'shell':
        s['a'] *= 1. + 1e-3 * k
    for p in dict(shell=[s], md=s.get('panels'), bay=s.get('panels'))[m['kind']]:
        if p.get('plyt'):
            p['plyt'] *= 1. + 1e-3 * k
    if m['kind'] == 'bay' and s.get('plyt'):
        s['plyt'] *= 1. + 1e-3 * k
    return m


def revary(model, obj, parts, k):
    m = varied(model, k)
    s = m['spec']
    for p, o in zip(dict(shell=[s], md=s.get('panels'), bay=s.get('panels'))[m['kind']], obj.panels if m['kind'] == 'bay' else parts):
        if p.get('plyt'):
            o.plyt = p['plyt']
    if m['kind'] == 'bay' and s.get('plyt'):
        obj.plyt = s['plyt']
    if m['kind'] == 'shell':
        obj.a = s['a']
    return m


def other(op, k):
    return dict(op, c=op['c'] + k) if op.get('c') is not None else op


def traced(least=0):
    """(bytes in arrays, bytes allocated by the library's Python code)"""
    import _tracemalloc
    arrays = library = 0
    for t in _tracemalloc._get_traces():
        if t[0] == NUMPY:
            arrays += t[1]
        elif t[1] >= least and t[2][0][0].startswith(env.PKG):
            library += t[1]
    return arrays, library


# ------------------------------------------------------------------ one round
class Session(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = os.path.realpath('work')
        os.makedirs(os.path.join(self.root, 'sub'))
        os.chdir(self.root)
        self.dk = env.Disk(self.root)
        self.plots = any(s['do'] == 'plot' for s in plan['steps'])
        self.lines = 0
        self.obj = None
        self.what = []

    def round(self, r):
        plan, ctx = self.plan, self.ctx
        k = r if plan['vary'] else 0
        self.lines = 0
        self.what = []
        if plan['model'] is None:
            self.job(plan['steps'][0])
            return
        if plan['mode'] == 'new':
            model = varied(plan['model'], k)
            obj, parts = Z.make(model)
        elif self.obj is None:
            model = copy.deepcopy(plan['model'])
            obj, parts = self.obj, self.parts = Z.make(model)
        else:
            obj, parts = self.obj, self.parts
            model = revary(plan['model'], obj, parts, k)
        for st in plan['steps']:
            ctx.counters[st['do']] += 1
            getattr(self, st['do'])(st, model, obj, parts, k)

    def note(self, *a):
        self.what.append(' '.join(str(x) for x in a))

    def job(self, st):
        job = f12.resolve(st['job'])
        args = f12.call_args(job)
        fn = lambda: f12.function(job['fn'])(**args)
        try:
            if st['f']:
                out, exc, hit = f12.disturbed(st['f'], fn, job, self.ctx)
                self.note(job['fn'], st['f']['kind'], hit)
            else:
                fn()
                self.note(job['fn'])
        except RuntimeError as e:
            if not f12.no_answer(e):
                raise

    def edit(self, st, model, obj, parts, k):
        H.apply_edit(model, st['e'], obj, parts)

    def perform(self, obj, model, op, parts):
        with env.inject_at_line(-1) as c:
            Z.perform(obj, model, op, parts)
        self.lines += c.count

    def op(self, st, model, obj, parts, k):
        op = other(st['op'], k)
        if st['f'] is None:
            self.perform(obj, model, op, parts)
            self.note(Z.where(model, op))
            return
        got, exc, hit = f08.disturbed(st['f'], obj, parts, model, op, self.ctx)
        self.note(Z.where(model, op), st['f']['kind'], hit)

    def bad(self, st, model, obj, parts, k):
        try:
            fn, undo = f09.request(model, obj, parts, st['b'])
        except f09.Inapplicable:
            return
        try:
            fn()
        except env.HarnessError:
            raise
        except Exception as e:  # noqa
            self.ctx.faults['misfit: %s' % f09.label(st['b'])] += 1
            self.note(Z.where(model, st['b']['op']), f09.label(st['b']), type(e).__name__)
        undo()

    def copy(self, st, model, obj, parts, k):
        o, p = f08.twin(obj, parts)
        self.perform(o, model, other(st['op'], k), p)
        self.note('copy', Z.where(model, st['op']))

    def plot(self, st, model, obj, parts, k):
        import matplotlib.pyplot as plt
        p, f = dict(st['p']), st['f']
        s = model['spec']
        if model['kind'] == 'bay' and p['fi'] is not None and p['fi'] >= len(f10.flanges(s)):
            p['fi'] = None
        if model['kind'] == 'md' and p['group'] not in [P['group'] for P in s['panels']]:
            p['group'] = s['panels'][0]['group']
        p['lim'] = p['lim'] or [-1., 1.]
        figs = set(plt.get_fignums())
        pt = f10.Patch(f['call'], f10.EXC[f['exc']], True) if f and f['kind'] == 'call' else f10.Patch(fast=True)
        inj, exc, disk = None, None, False
        with pt:
            try:
                if f and f['kind'] == 'disk':
                    self.dk.set_faults([dict(at=f['at'], kind=f['dk'], err=f['err'], arg=f['arg'], opmask=f['opmask'])])
                    self.dk.pos.value = 0
                    self.dk.on()
                    try:
                        f10.plot(obj, parts, model, p, None, {})
                    finally:
                        self.dk.off()
                elif f and f['kind'] == 'alloc':
                    with env.failing_alloc(int(f['at'] * 12), f['n']) as inj:
                        f10.plot(obj, parts, model, p, None, {})
                elif f and f['kind'] == 'heap':
                    inj = env.heap(fill=f['fill'], fail_at=f['at'], fail_len=1)
                    with inj:
                        f10.plot(obj, parts, model, p, None, {})
                else:
                    f10.plot(obj, parts, model, p, None, {})
            except (env.SimKeyboardInterrupt, env.SimMemoryError, f10.SimError, OSError, MemoryError) as e:
                exc = type(e).__name__
        if exc is None:
            # figures of plots that came about are the user's
            for n in set(plt.get_fignums()) - figs:
                plt.close(n)
        if pt.fired or exc is not None:
            self.ctx.faults['plot fails: %s' % (f['kind'] if f else '')] += 1
        self.note(model['kind'], 'plot', p['where'], f and f['kind'], exc)

    def save(self, st, model, obj, parts, k):
        obj.name = st['name']
        how, exc, row = st['how'], None, None
        if how == 'broken':
            row = f07.Broken(f07.EXC[st['exc']])
            if model['kind'] == 'shell':
                obj.distr_loads.append([0., None, row, row, None])
            else:
                obj.forces_skin.append([row])
        try:
            if how == 'disk':
                self.dk.set_faults([st['fault']])
                self.dk.pos.value = 0
                self.dk.on()
                try:
                    obj.save()
                finally:
                    self.dk.off()
            elif how == 'interrupt':
                with env.inject_at_line(st['k'], f07.EXC[st['exc']]):
                    obj.save()
            else:
                obj.save()
        except (Exception, env.SimKeyboardInterrupt) as e:  # noqa
            if how == 'clean':
                raise
            exc = type(e).__name__
            self.ctx.faults['save fails: %s' % how] += 1
        finally:
            if row is not None:
                (obj.distr_loads if model['kind'] == 'shell' else obj.forces_skin).pop()
        self.note(model['kind'], 'save', how, exc)

    def load(self, st, model, obj, parts, k):
        kind = model['kind']
        names = [s['name'] for s in self.plan['steps'] if s['do'] == 'save']
        exc = None
        if not names or not os.path.exists(names[-1] + f06.EXT[kind]):
            return
        try:
            if st['fault']:
                self.dk.set_faults([st['fault']])
                self.dk.pos.value = 0
                self.dk.on()
                try:
                    f06.loader(kind)(names[-1])
                finally:
                    self.dk.off()
            else:
                f06.loader(kind)(names[-1])
        except Exception as e:  # noqa
            if not st['fault']:
                raise
            exc = type(e).__name__
            self.ctx.faults['load fails'] += 1
        self.note(kind, 'load', bool(st['fault']), exc)

    # -------------------------------------------------------------- what is left
    def measure(self, least=0):
        import matplotlib.pyplot as plt
        gc.collect()
        out = dict(lines=self.lines, figures=len(plt.get_fignums()), threads=threading.active_count(), tasks=len(os.listdir('/proc/self/task')), fds=len(os.listdir('/proc/self/fd')),
                   files=sum(len(f) for _, _, f in os.walk(self.root)))
        out['arrays'], out['library'] = traced(least)
        obs = gc.get_objects()
        out['models'] = sum(type(o).__module__.startswith('panels') for o in obs)
        if not self.plots:
            out['objects'] = len(obs)
        del obs
        return out


NAMES = dict(lines='lines of the library run', figures='open figures', threads='threads', tasks='system threads', fds='open files', files='files in the working directory', arrays='bytes in arrays',
             library='bytes allocated by the library', models='objects of the library', objects='objects')


def growing(ms):
    """Names of what grew during the last rounds and never shrank."""
    last = ms[-LAST - 1:]
    return [n for n in NAMES if n in last[0] and last[-1][n] > last[0][n] and all(y[n] >= x[n] for x, y in zip(last, last[1:]))]


def run(plan, ctx):
    s = Session(plan, ctx)
    tracemalloc.start(1)
    ms = []
    for r in range(ROUNDS):
        s.round(r)
        ms.append(s.measure())
    g = growing(ms)
    ctx.counters['rounds'] += ROUNDS
    ctx.counters['lines'] += s.lines * ROUNDS
    if g:
        # something with a bound may still be filling up
        ctx.counters['sessions continued'] += 1
        # (the interpreter keeps names in a cache of its own: only larger pieces count, and what holds the small ones is large)
        long, at = [s.measure(LARGE)], ROUNDS
        stops = STOPS if plan['model'] is not None else STOPS[:2]
        for r in range(ROUNDS, ROUNDS + stops[-1]):
            s.round(r)
            if r - ROUNDS + 1 in stops:
                long.append(s.measure(LARGE))
                # bytes: at least a pointer every other round (free lists of the interpreter fill up more slowly)
                g = [n for n in g if long[-1][n] - long[-2][n] >= (r + 1 - at) * (4. if n in ('arrays', 'library') else .5)]
                at = r + 1
                if not g:
                    break
        if g:
            n = g[0]
            ctx.violation('piles-up', '%s after each round: %s; %d rounds later: %d (steps: %s)' % (NAMES[n], [m[n] for m in ms], at - ROUNDS, long[-1][n], '; '.join(s.what)))
            return
    ctx.observe(repr([{n: v for n, v in m.items() if n in ('figures', 'threads', 'files', 'models')} for m in ms]), repr(s.what))
    ctx.hashes.extend(s.what)
    ctx.hashes.append('%s %s %s' % (plan['model'] and plan['model']['kind'], plan['mode'], plan['vary']))
    ctx.nontrivial = any(ctx.faults.values()) or len({st['do'] for st in plan['steps']}) >= 3
    ctx.counters['sessions'] += 1


def shrink(plan):
    for l in Z.less_list(plan['steps']):
        if l:
            yield Z.with_(plan, steps=l)
    if plan['vary']:
        yield Z.with_(plan, vary=False)
    for i, s in enumerate(plan['steps']):
        def rep(**kw):
            return Z.with_(plan, steps=plan['steps'][:i] + [dict(s, **kw)] + plan['steps'][i + 1:])
        for q in ('f', 'fault'):
            if s.get(q) and s['do'] != 'save':
                yield rep(**{q: None})
        if s['do'] == 'op':
            for o in Z.simpler_op(s['op']):
                yield rep(op=o)
    if plan['model']:
        for m in Z.simpler_model(plan['model']):
            yield Z.with_(plan, model=m)
