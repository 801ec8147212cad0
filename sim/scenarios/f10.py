"""Plots: what is drawn is the field asked for, at its place; a plot leaves the results and the definition of the model alone, and one that fails says so and leaves no figure behind."""
import copy
import errno
import os

import numpy as np

from .. import common as Z
from .. import env
from .. import histories as H
from .. import models as M
from .. import refmodel as R
from . import f06
from . import f08

RUNS = dict(quick=2600, thorough=40000)
WALL = dict(quick=70, thorough=800)
RULE = ('one simulated session = one seed: one or two models; field calculations, edits and plots, most of them under a fault (a disk error while the picture is written, a failing '
        'matplotlib call, an interrupt during it, a failing allocation), into a new figure or into axes of the user; non-trivial when a plot was drawn or a fault fired')
DISTINCT = 'distinct triples of plot, fault and place where it struck, and distinct digests of what was drawn'
REAL = Z.REAL + ['matplotlib with the Agg backend', 'pictures written by PIL to a scratch directory']
STUB = ['Figure.tight_layout in three of four sessions', 'disk errors (libsim)', 'failing matplotlib calls (the call chosen by the seed raises instead)', 'allocation failures (NumPy functions and malloc in the compiled parts)',
        'reference: independent dense NumPy model']
ASSUME = ['what is drawn is what is passed to Axes.contourf, Axes.text and Axes.plot', 'matplotlib itself is right']
TIME = 'no clock in the simulated code; time is measured in steps, see counters'

DISPLS = ['u', 'v', 'w', 'phix', 'phiy']
ERRS = dict(ENOSPC=errno.ENOSPC, EIO=errno.EIO, EACCES=errno.EACCES, EMFILE=errno.EMFILE)
CALLS = ['figure', 'add_subplot', 'contourf', 'contourf', 'tight_layout', 'savefig', 'savefig', 'set_aspect', 'invert_xaxis', 'set_title', 'colorbar']


def preload():
    M.kappa_probe()
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import mpl_toolkits.axes_grid1  # noqa
    import panels.plot_shell  # noqa
    fig = plt.figure(figsize=(1., 1.))
    ax = fig.add_subplot(111)
    ax.set_title('1')
    fig.tight_layout()
    import io
    fig.savefig(io.BytesIO(), dpi=20)
    plt.close(fig)


# ------------------------------------------------------------------ plans
def gen_plot(rng, model):
    k, s = model['kind'], model['spec']
    vec = rng.choice(DISPLS + (list(R.STRAINS) + list(R.STRESSES) if k != 'bay' else []))
    p = dict(vec=vec, c=rng.randrange(10 ** 6), gx=rng.randint(2, 6), gy=rng.randint(2, 6), levels=rng.randint(2, 9), lim=None, title=rng.choice(['', 'T']), colorbar=rng.random() < .1,
             invert_y=rng.random() < .3, clean=rng.random() < .6, name=rng.choice(['', 'pic.png', 'sub/pic.png']),
             where=rng.choice(['save', 'save', 'nosave', 'ax', 'ax']), aspect=rng.choice(['equal', 'auto']))
    if rng.random() < .4:
        lo = round(rng.uniform(-2, 1), 3)
        p['lim'] = [lo, lo + rng.choice([.1, 1., 3.])]
    if k == 'md':
        p['group'] = rng.choice([q['group'] for q in s['panels']])
        p['identify'], p['bounds'], p['dataonly'] = rng.random() < .3, rng.random() < .3, rng.random() < .15
        if rng.random() < .3:
            p['xg'] = sorted(round(rng.random(), 3) for _ in range(rng.randint(2, 4)))
            p['yg'] = sorted(round(rng.random(), 3) for _ in range(rng.randint(2, 4)))
    else:
        p['deform'] = rng.choice([0, 1., 30.])
        if k == 'shell':
            p['NL'] = rng.random() < .5
            p['off'] = [rng.choice([0., 0., 5.]), rng.choice([0., 0., -3.])]
        else:
            fl = [i for i, st in enumerate(s['stiffs']) if st['kind'] == '2d' and st['fstack']]
            p['fi'] = rng.choice([None] + list(range(len(fl))))
        if rng.random() < .3:
            # own points, a mesh
            p['mesh'] = [sorted({round(rng.random(), 3) for _ in range(rng.randint(2, 5))} | {0., 1.}), sorted({round(rng.random(), 3) for _ in range(rng.randint(2, 5))} | {0., 1.})]
    return p


def gen_fault(rng, p):
    k = rng.choice(['call', 'call', 'call', 'disk', 'disk', 'alloc', 'heap'])
    if k == 'disk' and p['where'] != 'save':
        k = 'call'
    if k == 'call':
        return dict(kind=k, call=rng.choice(CALLS), exc=rng.choice(['KeyboardInterrupt', 'MemoryError', 'ValueError']))
    if k == 'disk':
        q = rng.choice([1, 1, 2, 5])
        return dict(kind=k, at=rng.choice([0, 0, 1, 2, 3]), dk=q, err=ERRS[rng.choice(sorted(ERRS))], arg=rng.getrandbits(10), opmask=(1 << 4) if q == 2 else 0)
    if k == 'alloc':
        return dict(kind=k, at=round(rng.random(), 4), n=rng.choice([1, 1, 2]))
    return dict(kind=k, at=rng.randint(0, 3), fill=rng.choice([None, rng.getrandbits(60)]))


def gen(rng, tier, i):
    models = [Z.gen_model(rng, 'ssmbb', mn=(2, 3)) for _ in range(rng.choice([1, 1, 2]))]
    cur = copy.deepcopy(models)
    steps = []
    for _ in range(rng.randint(3, 8) if tier == 'quick' else rng.randint(3, 20)):
        j = rng.randrange(len(cur))
        r = rng.random()
        if r < .2:
            e = H.gen_edit(rng, cur[j])
            H.apply_edit(cur[j], e)
            steps.append(dict(do='edit', s=j, e=e))
        elif r < .45:
            steps.append(dict(do='op', s=j, op=Z.gen_op(rng, cur[j], Z.FIELD_KINDS[cur[j]['kind']])))
        else:
            p = gen_plot(rng, cur[j])
            steps.append(dict(do='plot', s=j, p=p, f=gen_fault(rng, p) if rng.random() < .55 else None))
            if rng.random() < .2:
                steps.append(dict(do='op', s=j, op=Z.gen_op(rng, cur[j])))
    j = rng.randrange(len(cur))
    steps.append(dict(do='plot', s=j, p=gen_plot(rng, cur[j]), f=None))
    return dict(models=models, steps=steps, fast=rng.random() < .75)


# ------------------------------------------------------------------ what should be drawn
def field_op(model, p):
    k = model['kind']
    op = dict(c=p['c'], gx=p['gx'], gy=p['gy'])
    base = 'uvw' if p['vec'] in DISPLS else 'strain' if p['vec'] in R.STRAINS else 'stress'
    if p.get('mesh'):
        X, Y = np.meshgrid(p['mesh'][0], p['mesh'][1])
        op['pts'] = np.stack([X.ravel(), Y.ravel()], 1).tolist()
    if k == 'bay':
        op['op'] = 'skin' if p['fi'] is None else 'stiff'
        op['fi'] = p['fi']
    elif k == 'md':
        op.update(op=base + ('_gauss' if p.get('xg') else ''), group=p['group'], NL=True)
        if p.get('xg'):
            op['xg'], op['yg'] = p['xg'], p['yg']
    else:
        op.update(op=base, NL=p['NL'] if base == 'stress' else True)
    return op


def expected(model, p):
    """[(x, y, field)] in the order of drawing, tolerances by name, and the limits of the field"""
    op = field_op(model, p)
    e = Z.expect(model, op)
    sc = e.get('_scales', {})
    vec = p['vec']
    if model['kind'] == 'md':
        out, scales, q = [], {}, 0
        for i in model['spec']['order']:
            P = model['spec']['panels'][i]
            if P['group'] != p['group']:
                continue
            out.append((e['y%d' % q] + P['y0'], e['x%d' % q] + P['x0'], e['%s%d' % (vec, q)]))
            scales['f%d' % q] = sc.get('%s%d' % (vec, q), 0.)
            q += 1
        return out, scales
    shape = (len(p['mesh'][1]), len(p['mesh'][0])) if p.get('mesh') else e['Xs'].shape
    x, y, f = e['Ys'], e['Xs'], e[vec]
    off = p.get('off') or [0., 0.]
    x, y = x + off[1], y + off[0]
    scales = dict(f0=sc.get(vec, 0.))
    if p['deform']:
        d = e if vec in DISPLS else Z.expect(model, dict(op, op='uvw'))
        y = y - p['deform'] * d['u']
        x = x + p['deform'] * d['v']
        big = p['deform'] * max(d.get('_scales', {}).get(n, 0.) for n in 'uv')
        scales.update(x0=big, y0=big)
    return [(x.reshape(shape), y.reshape(shape), f.reshape(shape))], scales


# ------------------------------------------------------------------ faults
class SimError(ValueError):
    pass


EXC = dict(KeyboardInterrupt=env.SimKeyboardInterrupt, MemoryError=env.SimMemoryError, ValueError=SimError)


class Patch(object):
    """Records what is drawn, and makes one kind of call fail."""
    def __init__(self, call=None, exc=None, fast=False):
        self.call, self.exc, self.fired, self.fast = call, exc, False, fast
        self.drawn, self.undo = [], []

    def __enter__(self):
        import matplotlib.axes
        import matplotlib.figure
        import matplotlib.pyplot as plt
        A, F = matplotlib.axes.Axes, matplotlib.figure.Figure
        for nm, o in (('figure', plt), ('add_subplot', F), ('contourf', A), ('tight_layout', F), ('savefig', F), ('set_aspect', A), ('invert_xaxis', A), ('set_title', A), ('colorbar', plt)):
            # inherited methods are put back by deleting ours
            own = nm in vars(o)
            self.undo.append((o, nm, getattr(o, nm), own))
            setattr(o, nm, self.wrap(nm, getattr(o, nm)))
        return self

    def __exit__(self, *a):
        for o, nm, f, own in self.undo:
            if own:
                setattr(o, nm, f)
            else:
                delattr(o, nm)

    def wrap(self, nm, f):
        def g(*a, **k):
            if nm == self.call and not self.fired:
                self.fired = True
                raise self.exc('simulated: %s' % nm)
            if nm == 'contourf':
                self.drawn.append((a[0], [np.array(q, float) for q in a[1:4]], np.array(k['levels'] if 'levels' in k else a[4], float)))
            if self.fast and nm == 'tight_layout':
                return None
            return f(*a, **k)
        return g


def plot(obj, parts, model, p, ax, args):
    """Draws; puts what the user passed into args."""
    from panels.plot_shell import plot_shell
    s, k = model['spec'], model['kind']
    kw = dict(vec=p['vec'], gridx=p['gx'], gridy=p['gy'], num_levels=p['levels'], title=p['title'], colorbar=p['colorbar'], invert_y=p['invert_y'], clean=p['clean'], dpi=20,
              figsize=(2., 1.5), aspect=p['aspect'])
    if p.get('lim'):
        kw['vecmin'], kw['vecmax'] = p['lim']
    if p['where'] == 'save':
        if p['name']:
            kw['filename'] = p['name']
    elif p['where'] == 'nosave':
        kw['save'] = False
    else:
        kw['ax'] = ax
    if k == 'md':
        c = M.md_c(s, p)
        kw.update(identify=p['identify'], show_boundaries=p['bounds'], calc_data_only=p['dataonly'])
        if p.get('xg'):
            p0 = [q for q in s['panels'] if q['group'] == p['group']][0]
            kw.update(use_gauss_points=True, x_gauss=np.array(p['xg']) * p0['a'], y_gauss=np.array(p['yg']) * p0['b'])
        passed(args, c, kw)
        return obj.plot(c, p['group'], **kw)
    if p['deform']:
        kw.update(deform_u=True, deform_u_sf=p['deform'])
    if p.get('mesh'):
        b = s['b'] if k == 'shell' or p['fi'] is None else flanges(s)[p['fi']]['bf']
        X, Y = np.meshgrid(p['mesh'][0], p['mesh'][1])
        kw.update(xs=X * s['a'], ys=Y * b)
    if k == 'shell':
        kw.update(NLgeom=p['NL'], plot_offset_x=p['off'][0], plot_offset_y=p['off'][1])
        c = M.op_c(s, p)
        passed(args, c, kw)
        return plot_shell(obj, c, **kw), None
    from .. import bays as B
    c = B.bay_c(s, p)
    passed(args, c, kw)
    if p['fi'] is None:
        return obj.plot_skin(c, silent=True, **kw), None
    return obj.plot_stiffener(c, s['stiffs'].index(flanges(s)[p['fi']]), silent=True, **kw), None


def passed(args, c, kw):
    for n, v in [('c', c)] + sorted(kw.items()):
        if isinstance(v, np.ndarray):
            args[n] = (v, v.copy())


def flanges(s):
    return [st for st in s['stiffs'] if st['kind'] == '2d' and st['fstack']]


def results(obj, parts, model):
    """What the user finds on the model after field calculations."""
    k = model['kind']
    out = {}
    if k == 'bay':
        for n in DISPLS + ['Xs', 'Ys']:
            v = getattr(obj, n, None)
            if v is not None:
                out[n] = np.array(v)
        return out
    for i, s in enumerate(parts):
        if s.plot_mesh.get('Xs') is None:
            continue
        for d in (s.fields, s.plot_mesh):
            for n, v in d.items():
                if v is not None:
                    out['%d %s' % (i, n)] = np.array(v)
    return out


def changed(a, b):
    for n in sorted(a):
        if n not in b:
            return n + ' is gone'
        if a[n].shape != b[n].shape or not np.array_equal(a[n], b[n], equal_nan=True):
            return n
    return None


def left_behind(model, p, res):
    """A plot of a model without results may leave those it calculated: then the fields are those at the points."""
    pre = '0 ' if model['kind'] == 'shell' else ''
    if pre + 'Xs' not in res:
        return None
    op = field_op(model, p)
    e = Z.expect(model, op)
    names = ['Xs', 'Ys', p['vec']] + (['u', 'v'] if p['deform'] else [])
    if p['deform'] and p['vec'] not in DISPLS:
        e = dict(Z.expect(model, dict(op, op='uvw')), **{p['vec']: e[p['vec']]})
    return M.mismatch({n: np.ravel(res[pre + n]) for n in names if pre + n in res},
                      dict({n: np.ravel(e[n]) for n in names}, _scales=e.get('_scales', {})), dof=False)


def whole_png(path):
    try:
        with open(path, 'rb') as f:
            d = f.read()
    except OSError as e:
        return 'not written (%s)' % e
    if d[:8] != b'\x89PNG\r\n\x1a\n' or d[-8:-4] != b'IEND':
        return 'incomplete (%d bytes)' % len(d)
    return None


def run(plan, ctx):
    import matplotlib.pyplot as plt
    models = copy.deepcopy(plan['models'])
    objs = [Z.make(m) for m in models]
    held = H.Held()
    os.makedirs('work/sub')
    os.chdir('work')
    root = os.path.realpath('.')
    user = plt.figure(figsize=(1., 1.))
    uax = user.add_subplot(111) if any(s['do'] == 'plot' and s['p']['where'] == 'ax' for s in plan['steps']) else None
    for q, st in enumerate(plan['steps']):
        j = st['s']
        model, (obj, parts) = models[j], objs[j]
        if st['do'] == 'edit':
            H.apply_edit(model, st['e'], obj, parts)
            continue
        if st['do'] == 'op':
            got = Z.perform(obj, model, st['op'], parts)
            where = Z.where(model, st['op'])
            m = M.mismatch(got, Z.expect(model, st['op']))
            if m:
                ctx.violation('wrong-result', 'step %d: %s' % (q, m), where)
                return
            held.add('step %d (%s)' % (q, where), got.get('_raw'))
            ctx.observe(Z.plain(got))
            ctx.counters['operations'] += 1
            continue
        p, f = dict(st['p']), st['f']
        if model['kind'] == 'bay' and p['fi'] is not None and p['fi'] >= len(flanges(model['spec'])):
            p['fi'] = None
        if model['kind'] == 'md' and p['group'] not in [P['group'] for P in model['spec']['panels']]:
            p['group'] = model['spec']['panels'][0]['group']
        where = '%s plot of %s' % (model['kind'] if model['kind'] != 'bay' else 'skin' if p['fi'] is None else 'stiffener', p['vec'])
        exp, scales = expected(model, p)
        lo, hi = min(e[2].min() for e in exp), max(e[2].max() for e in exp)
        big = max([1e-300, abs(lo), abs(hi)] + [scales.get('f%d' % i, 0.) for i in range(len(exp))])
        if not p.get('lim') and hi - lo <= 1e-6 * big:
            p['lim'] = [lo - 1., lo + 1.]
        before = [(f08.snapshot(m, *o), results(o[0], o[1], m)) for m, o in zip(models, objs)]
        figs = set(plt.get_fignums())
        had = (len(uax.texts), len(uax.lines), len(uax.collections)) if p['where'] == 'ax' else (0, 0, 0)
        name = p['name'] or (p['group'] + '.png' if model['kind'] == 'md' else 'test.png')
        path = os.path.join(root, name)
        if p['where'] == 'save' and os.path.exists(path):
            os.unlink(path)
        pt = Patch(f['call'], EXC[f['exc']], plan['fast']) if f and f['kind'] == 'call' else Patch(fast=plan['fast'])
        dk = None
        res = exc = None
        inj, args = None, {}
        with pt:
            try:
                if f and f['kind'] == 'disk':
                    dk = env.Disk(root)
                    dk.set_faults([dict(at=f['at'], kind=f['dk'], err=f['err'], arg=f['arg'], opmask=f['opmask'])])
                    dk.on()
                    try:
                        res = plot(obj, parts, model, p, uax, args)
                    finally:
                        dk.off()
                elif f and f['kind'] == 'alloc':
                    with env.failing_alloc(int(f['at'] * 12), f['n']) as inj:
                        res = plot(obj, parts, model, p, uax, args)
                elif f and f['kind'] == 'heap':
                    inj = env.heap(fill=f['fill'], fail_at=f['at'], fail_len=1)
                    with inj:
                        res = plot(obj, parts, model, p, uax, args)
                else:
                    res = plot(obj, parts, model, p, uax, args)
            except (env.SimKeyboardInterrupt, env.SimMemoryError, SimError, OSError, MemoryError) as e:
                exc = e
        fired = pt.fired or bool(dk and any(dk.fired())) or bool(getattr(inj, 'fired', None)) or bool(getattr(inj, 'failed', None))
        if exc is not None and not fired:
            raise exc
        ctx.counters['plots'] += 1
        if fired:
            ctx.nontrivial = True
            lbl = f['kind'] if f['kind'] != 'call' else 'matplotlib %s: %s' % (f['call'], f['exc'])
            if f['kind'] == 'disk':
                lbl = 'disk %s' % errno.errorcode.get(f['err'], f['err']) if f['dk'] != 2 else 'short write'
            ctx.faults[lbl] += 1
            ctx.hashes.append('%s | %s | %s' % (where, lbl, f.get('at', '')))
        # the definition, and results of before
        for i, (m, o) in enumerate(zip(models, objs)):
            d = f08.differ(before[i][0], f08.snapshot(m, *o))
            if d:
                ctx.violation('definition-modified', 'step %d: %s' % (q, d), where)
                return
            ch = changed(before[i][1], results(o[0], o[1], m))
            if ch:
                ctx.violation('earlier-result-replaced', 'step %d: model %d, plot of %d%s: %s' % (q, i, j, ' that failed with %s' % type(exc).__name__ if exc else '', ch), where)
                return
        ch = held.changed()
        if ch:
            ctx.violation('earlier-result-changed', 'step %d: arrays returned by %s' % (q, ch), where)
            return
        ch = [n for n, (v, w) in sorted(args.items()) if not np.array_equal(v, w)]
        if ch:
            ctx.violation('argument-modified', 'step %d: %s' % (q, ', '.join(ch)), where)
            return
        if exc is None and not before[j][1] and model['kind'] != 'md':
            w = left_behind(model, p, results(obj, parts, model))
            if w:
                ctx.violation('wrong-results-after-a-plot', 'step %d: %s' % (q, w), where)
                return
        new = set(plt.get_fignums()) - figs
        if figs - set(plt.get_fignums()):
            ctx.violation('figure-of-the-user-closed', 'step %d' % q, where)
            return
        if exc is not None:
            ctx.observe(where, type(exc).__name__)
            if new:
                ctx.violation('figure-left-open', 'step %d: plot failed with %s' % (q, type(exc).__name__), where)
                return
            continue
        ax, data = res
        v = check(ctx, model, p, exp, scales, pt.drawn, ax, data, uax, new, path, lo, hi, had)
        if v:
            ctx.violation(v[0], 'step %d: %s%s' % (q, v[1], ' (fault: %s)' % f if fired else ''), where)
            return
        ctx.nontrivial = True
        for a, xyz, lev in pt.drawn:
            ctx.observe(*xyz)
        for n in new:
            plt.close(n)
    ctx.counters['sessions'] += 1


def check(ctx, model, p, exp, scales, drawn, ax, data, uax, new, path, lo, hi, had):
    md = model['kind'] == 'md'
    lim = p['lim'] or [lo, hi]
    tol = dict(_scales=dict(lim=max(scales.get('f%d' % i, 0.) for i in range(len(exp)))))
    if md:
        m = M.mismatch(dict(lim=np.array([data['vecmin'], data['vecmax']], float)), dict(tol, lim=np.array(lim)))
        if m:
            return 'wrong-data', m
        if p['dataonly']:
            if ax is not None or drawn or new:
                return 'drawn-though-only-data-asked', ''
            return None
    if len(drawn) != len(exp):
        return 'wrong-number-of-contours', '%d, expected %d' % (len(drawn), len(exp))
    got, e = {}, dict(_scales=dict(scales, **tol['_scales']))
    for i, ((a, xyz, lev), ex) in enumerate(zip(drawn, exp)):
        if a is not ax:
            return 'drawn-into-other-axes', ''
        for n, g, x in zip('xyf', xyz, ex):
            got['%s%d' % (n, i)], e['%s%d' % (n, i)] = g, x
        got['lev%d' % i], e['lev%d' % i] = lev, np.linspace(lim[0], lim[1], p['levels'])
        e['_scales']['lev%d' % i] = tol['_scales']['lim']
    m = M.mismatch(got, e, dof=False)
    if m:
        return 'wrong-picture', m
    if p['where'] == 'ax':
        if ax is not uax:
            return 'not-drawn-into-the-axes-given', ''
        if new:
            return 'figure-left-open', 'axes were given'
    elif p['where'] == 'nosave':
        if len(new) != 1 or ax.figure.number not in new:
            return 'no-figure-for-the-user', '%d new figures' % len(new)
    else:
        if new:
            return 'figure-left-open', 'after it was saved'
        w = whole_png(path)
        if w:
            return 'picture-not-saved', w
        ctx.counters['pictures saved'] += 1
    if len(ax.collections) <= had[2]:
        return 'nothing-drawn', ''
    if p['title'] and ax.get_title() != p['title']:
        return 'wrong-title', repr(ax.get_title())
    if p['where'] != 'ax':
        if not ax.xaxis_inverted() or ax.yaxis_inverted() != p['invert_y']:
            return 'wrong-orientation', ''
    if md:
        if p['identify']:
            t = ax.texts[had[0]:]
            names = ['P %02d' % (i + 1) for i, k in enumerate(model['spec']['order']) if model['spec']['panels'][k]['group'] == p['group']]
            if [x.get_text() for x in t] != names:
                return 'wrong-names', '%s, expected %s' % ([x.get_text() for x in t], names)
            for x, ex in zip(t, exp):
                if np.abs(np.array(x.get_position()) - [ex[0].mean(), ex[1].mean()]).max() > 1e-9 * (np.abs(ex[0]).max() + np.abs(ex[1]).max()):
                    return 'names-at-wrong-places', str(x.get_position())
        if p['bounds']:
            l = ax.lines[had[1]:]
            if len(l) != 4 * len(exp):
                return 'wrong-boundaries', '%d lines for %d panels' % (len(l), len(exp))
            for i, ex in enumerate(exp):
                box = np.array([[z.min(), z.max()] for z in ex[:2]])
                pts = np.concatenate([np.array(x.get_data()) for x in l[4 * i:4 * i + 4]], 1)
                g = np.array([[z.min(), z.max()] for z in pts])
                if np.abs(g - box).max() > 1e-9 * np.abs(box).max():
                    return 'wrong-boundaries', '%s, expected %s' % (g.tolist(), box.tolist())
    return None


def shrink(plan):
    for l in Z.less_list(plan['steps']):
        if any(s['do'] == 'plot' for s in l):
            yield Z.with_(plan, steps=l)
    for i, s in enumerate(plan['steps']):
        def rep(**kw):
            return Z.with_(plan, steps=plan['steps'][:i] + [dict(s, **kw)] + plan['steps'][i + 1:])
        if s['do'] == 'plot':
            if s['f']:
                yield rep(f=None)
            p = s['p']
            for k, v in (('title', ''), ('colorbar', False), ('invert_y', False), ('lim', None), ('mesh', None), ('deform', 0), ('identify', False), ('bounds', False), ('dataonly', False),
                         ('xg', None), ('off', [0., 0.]), ('name', '')):
                if p.get(k) and p[k] != v:
                    yield rep(p=dict(p, **{k: v}))
            for k in ('gx', 'gy', 'levels'):
                if p[k] > 2:
                    yield rep(p=dict(p, **{k: 2}))
        if s['do'] == 'op':
            for o in Z.simpler_op(s['op']):
                yield rep(op=o)
    for i, m in enumerate(plan['models']):
        for t in Z.simpler_model(m):
            yield Z.with_(plan, models=plan['models'][:i] + [t] + plan['models'][i + 1:])
