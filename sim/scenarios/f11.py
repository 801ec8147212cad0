"""Nonlinear analyses driven through the callbacks of shells and assemblies: every state the analysis returns is an equilibrium of the definition at that moment, and the analysis
reaches the full load, also after edits, other operations, and analyses that were interrupted."""
import copy
import functools

import numpy as np
import scipy.linalg as sl

from .. import common as Z
from .. import env
from .. import histories as H
from .. import models as M
from .. import refmodel as R

RUNS = dict(quick=1500, thorough=20000)
WALL = dict(quick=70, thorough=780)
RULE = ('one simulated session = one seed: a shell or an assembly, nonlinear analyses with their loads and options, faults during some of them (exceptions at a line of the library, failing '
        'allocations, failing load functions), edits and other operations in between; non-trivial when an analysis ended with more than a tenth of '
        'its displacements due to nonlinear terms, after a fault, an edit or another analysis')
DISTINCT = 'distinct digests of the load steps and places where faults struck'
REAL = Z.REAL
STUB = ['asynchronous exceptions', 'allocation failures', 'contents of fresh memory', 'reference: independent dense NumPy model']
ASSUME = ['loads below those of the first instability; when the analysis of the reference model with the same options does not reach the full load either, the analysis need not',
          'no rigid body motion, whole domains, no initial stresses']
TIME = 'no clock in the simulated code; time is measured in load steps, and lines of the library, see counters'
KAPPA = [None]


def preload():
    KAPPA[0] = M.kappa_probe()
    import structsolve  # noqa


SAFE = ('r', 'stack', 'plyt', 'laminaprop', 'plyts', 'laminaprops', 'offset', 'm', 'n', 'nx', 'ny', 'ortho', 'cores', 'rho', 'rhos', 'group', 'flow')


def supported(rng, spec, edges=('x1', 'x2', 'y1', 'y2')):
    """Edge conditions without rigid body motion."""
    bc = {k: 1. for k in M.BC}
    for e in edges:
        for d in 'vw':
            bc[e + d] = 0.
        if rng.random() < .5 or e == 'x1':
            bc[e + 'u'] = 0.
        if rng.random() < .3:
            bc[e + 'wr'] = 0.
    spec['bc'] = bc


def gen_model(rng):
    if rng.random() < .6:
        s = M.gen_shell(rng, (4, 5), x1=-1, x2=1, y1=-1, y2=1, N=[0.] * 3, Ncte=[0.] * 3, loads=[])
        supported(rng, s)
        return dict(kind='shell', spec=s)
    s = M.gen_md(rng, mn=(3, 4))
    n = sum(p['name'][0] == 'p' for p in s['panels'])
    for i, p in enumerate(s['panels']):
        p.update(N=[0.] * 3, Ncte=[0.] * 3, loads=[])
        if p['name'][0] == 'p':
            ends = [e for e, on in ((s['ax'] + '1', i == 0), (s['ax'] + '2', i == n - 1)) if on]
            supported(rng, p, ends + ['%s%d' % ('y' if s['ax'] == 'x' else 'x', q) for q in (1, 2)])
        else:
            p['bc'] = {k: 1. for k in M.BC}
    s['conn'] = [dict(c, func='SB') if c['func'] == 'SB_TSL' else c for c in s['conn']]
    for c in s['conn']:
        c.pop('tsl_type', None)
    return dict(kind='md', spec=s)


def gen_loads(rng, model):
    """Per panel, to be scaled when the analysis is made."""
    num = 1 if model['kind'] == 'shell' else len(model['spec']['panels'])
    out = [[] for _ in range(num)]
    l = M.gen_load(rng)
    l.update(kind='pl', x=round(rng.uniform(.2, .8), 3), y=round(rng.uniform(.2, .8), 3), v=[0., 0., rng.choice([-1., 1.])])
    out[0].append(l)
    for _ in range(rng.randint(0, 2)):
        i = rng.randrange(num)
        l = M.gen_load(rng)
        l['v'] = [round(x * .1, 3) for x in l['v']]
        l['lin'] = round(l['lin'] * .1, 3)
        out[i].append(l)
    return out


def gen_solve(rng, model, reload=True):
    opts = dict(NL_method=rng.choice(['NR'] * 8 + ['arc_length_riks', 'arc_length_crisfield']), modified_NR=rng.random() < .3, line_search=rng.random() < .2,
                kT_initial_state=rng.random() < .5, initialInc=rng.choice([.1, .3, .5, 1.]))
    return dict(opts=opts, loads=gen_loads(rng, model) if reload else None, target=round(rng.uniform(.2, 1.), 2), NL=rng.random() < .93)


def gen_fault(rng):
    k = rng.choice(['line', 'line', 'line', 'load', 'alloc', 'alloc'])
    f = dict(kind=k, at=round(rng.random() ** 2, 4))
    if k == 'line':
        f['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])
    else:
        f['n'] = rng.choice([1, 1, 2, 1000])
    return f


def safe(model, e):
    if e['what'] == 'shell' or e['what'] == 'panel':
        return all(k in SAFE for k, v, how in e['edits'])
    return e['what'] == 'order'


def few(cur, e):
    """Would it leave too few functions for a deflection?"""
    return any(k in 'mn' and v < (4 if e['what'] == 'shell' else 3) for k, v, how in e.get('edits', []))


def gen(rng, tier, i):
    model = gen_model(rng)
    cur = copy.deepcopy(model)
    steps = []
    for q in range(rng.randint(1, 3) if tier == 'quick' else rng.randint(1, 6)):
        for _ in range(rng.randint(0, 2)):
            e = H.gen_edit(rng, cur)
            if safe(cur, e) and not few(cur, e):
                H.apply_edit(cur, e)
                steps.append(dict(do='edit', e=e))
        if rng.random() < .5:
            steps.append(dict(do='op', op=Z.gen_op(rng, cur)))
        s = gen_solve(rng, cur, q == 0 or rng.random() < .7)
        if rng.random() < .4:
            steps.append(dict(do='fault', s=s, f=gen_fault(rng)))
            s = dict(s) if rng.random() < .5 else gen_solve(rng, cur, False)
        steps.append(dict(do='solve', s=s))
    return dict(model=model, steps=steps, fill=rng.choice([None, rng.getrandbits(60)]))


# ------------------------------------------------------------------ reference
class Ref(object):
    def __init__(self, model):
        self.md = model['kind'] == 'md'
        self.spec = model['spec']
        self.panels = self.spec['panels'] if self.md else [self.spec]
        if self.md:
            self.pos, self.size = M.md_layout(self.spec)
            self.conn = M.conn_ref(self.spec)
        else:
            self.size = 3 * self.spec['m'] * self.spec['n']
            self.pos, self.conn = {0: (0, self.size)}, 0.
        self.K = self.each('kC', None)
        self.used = np.flatnonzero(np.any(self.K != 0, axis=1))
        Ku = self.K[np.ix_(self.used, self.used)]
        self.d = 1. / np.sqrt(np.abs(np.diag(Ku)))
        self.cho = sl.cho_factor(Ku * np.outer(self.d, self.d))

    def each(self, op, c, NL=None):
        mat = op[0] == 'k'
        out = np.zeros((self.size,) * (2 if mat else 1))
        for i, (a, b) in self.pos.items():
            e = M.expect_c(self.panels[i], dict(op=op, NL=NL, inc=1.), None if c is None else np.asarray(c)[a:b])[op]
            if mat:
                out[a:b, a:b] = e
            else:
                out[a:b] = e
        if op == 'kC':
            out = out + self.conn
        elif op == 'fint' and self.md:
            out = out + self.conn @ c
        return out

    def solve(self, f):
        c = np.zeros(self.size)
        c[self.used] = self.d * sl.cho_solve(self.cho, self.d * f[self.used])
        return c

    def energy(self, c):
        return float(c @ self.K @ c)

    def w_max(self, c):
        w = 0.
        for i, (a, b) in self.pos.items():
            g = M.geo(self.panels[i])
            x, y = np.meshgrid(np.linspace(0, g.a, 9), np.linspace(0, g.b, 9))
            w = max(w, np.abs(R.fields(g, c[a:b], x.ravel(), y.ravel())['w']).max())
        return w


def set_loads(model, obj, parts, loads):
    spec = model['spec']
    for i, (p, s) in enumerate(zip(parts, spec['panels'] if model['kind'] == 'md' else [spec])):
        H.edit_shell(p, s, [('loads', [], 'clear')])
        for l in loads[i] if i < len(loads) else []:
            H.edit_shell(p, s, [('loads', s['loads'] + [l], 'add')])


def scaled(model, st):
    """The loads of the step, at which the linear displacement is a given fraction of the thickness."""
    m = copy.deepcopy(model)
    panels = m['spec']['panels'] if m['kind'] == 'md' else [m['spec']]
    loads = copy.deepcopy(st['loads'])
    for p, l in zip(panels, loads):
        p['loads'] = l
    ref = Ref(m)
    h = min(M.lam(p)[1] for p in panels)
    c = ref.solve(ref.each('fext', None))
    w = ref.w_max(c)
    if not w > 1e-12 * np.abs(c).max():
        return None
    t = st['target'] * (.4 if any(p['r'] for p in panels) else 1.)
    # rounded coarsely: the plan must not depend on the last bits of the reference
    f = float('%.2g' % (t * h / w))
    for L in loads:
        for l in L:
            l['v'] = [x * f for x in l['v']]
            l['lin'] *= f
    return loads


class Callbacks(object):
    """The reference model, for the analysis the user makes with the library."""
    def __init__(self, ref):
        self.r = ref

    def fext(self, inc=1., silent=False):
        return inc * self.r.each('fext', None)

    def fint(self, c, silent=False, **kw):
        return self.r.each('fint', c)

    def kC(self, c=None, silent=False, NLgeom=False, **kw):
        from scipy.sparse import csr_matrix
        return csr_matrix(self.r.each('kC', c, True) if NLgeom else self.r.K)

    def kG(self, c=None, silent=False, NLgeom=False, **kw):
        from scipy.sparse import csr_matrix
        return csr_matrix(self.r.each('kG', c, NLgeom))


class GivenUp(Exception):
    """By the user: arc-length analyses can go on for hundreds of steps."""


def analysis(st, fext, fint, kC, kG):
    from structsolve import Analysis
    calls = []

    @functools.wraps(fint)
    def patient(*a, **kw):
        calls.append(1)
        if len(calls) > 300:
            raise GivenUp()
        return fint(*a, **kw)
    an = Analysis(fext, patient, kC, kG)
    for k, v in st['opts'].items():
        setattr(an, k, v)
    an.minInc = .04  # a user's choice; analyses that would creep are given up by the library and by the reference alike
    if an.NL_method != 'NR':
        an.maxArcLength = 1.
    return an


EXC = dict(KeyboardInterrupt=env.SimKeyboardInterrupt, MemoryError=env.SimMemoryError)


class LoadError(Exception):
    pass


def disturbed(f, fn, model, parts, ctx):
    """(result or None, exception or None, place or None)"""
    from .f08 import load_funcs
    k = int(f['at'] * (4000 if model['kind'] == 'shell' else 12000))
    inj = None
    try:
        if f['kind'] == 'line':
            with env.inject_at_line(k, EXC[f['exc']]) as inj:
                got = fn()
            return got, None, inj.fired
        if f['kind'] == 'load':
            fs = load_funcs(model, parts)
            if not fs:
                return fn(), None, None
            x = fs[k % len(fs)]
            x.fail_at, x.exc, x.calls = 1 + k % 9, LoadError, 0
            try:
                return fn(), None, None
            finally:
                x.fail_at = None
        with env.failing_alloc(k // 8, f['n']) as inj:
            got = fn()
        return got, None, 'alloc' if inj.fired else None
    except GivenUp as e:
        return None, e, None
    except (env.SimKeyboardInterrupt, MemoryError, LoadError) as e:
        ctx.faults[dict(line='%s at a line' % f.get('exc'), load='load function fails', alloc='NumPy allocation fails')[f['kind']]] += 1
        return None, e, inj.fired if f['kind'] == 'line' else '%s %d' % (f['kind'], k)
    except Exception as e:
        # a MemoryError that scipy or structsolve turned into another exception
        if f['kind'] != 'alloc' or not inj.fired:
            raise
        ctx.faults['NumPy allocation fails'] += 1
        return None, e, '%s %d' % (f['kind'], k)


def judge(st, model, ref, incs, cs, ctx):
    """None or (kind, detail, share of the displacements due to nonlinear terms)"""
    if len(incs) != len(cs):
        return 'result', '%d load steps, %d states' % (len(incs), len(cs))
    f = ref.each('fext', None)
    for inc, c in zip(incs, cs):
        c = np.asarray(c)
        if c.shape != (ref.size,) or not np.all(np.isfinite(c)):
            return 'result', 'state of shape %s' % (c.shape,)
        r = (ref.each('fint', c) if st['NL'] else ref.K @ c) - inc * f
        dc = ref.solve(r)
        e, tot = ref.energy(dc), ref.energy(c)
        if not e <= 1e-8 * tot + 1e-300:
            return 'no-equilibrium', 'at %.4g of the load: energy of the imbalance %.3g of %.3g' % (inc, e, tot)
    return None


def run(plan, ctx):
    import warnings
    model = copy.deepcopy(plan['model'])
    obj, parts = Z.make(model)
    last, held, before = None, H.Held(), False
    with env.heap(fill=plan['fill']), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for q, step in enumerate(plan['steps']):
            if step['do'] == 'edit':
                H.apply_edit(model, step['e'], obj, parts)
                before = True
                continue
            if step['do'] == 'op':
                got = Z.perform(obj, model, step['op'], parts)
                ctx.counters['operations'] += 1
                m = M.mismatch(got, Z.expect(model, step['op']))
                if m:
                    ctx.violation('wrong-result-after-an-analysis', 'step %d: %s' % (q, m), Z.where(model, step['op']))
                    return
                held.add('step %d' % q, got.get('_raw'))
                before = True
                continue
            st = step['s']
            if st['loads'] is not None:
                loads = scaled(model, st)
                if loads is None:
                    continue
                set_loads(model, obj, parts, loads)
            ref = Ref(model)
            if not np.any(ref.each('fext', None)):
                continue
            where = '%s.%s' % (model['kind'], st['opts']['NL_method'])
            an = analysis(st, obj.calc_fext, obj.calc_fint, obj.calc_kC, obj.calc_kG)
            fn = lambda: an.static(NLgeom=st['NL'], silent=True)
            exc = hit = None
            if step['do'] == 'fault':
                got, exc, hit = disturbed(step['f'], fn, model, parts, ctx)
            else:
                try:
                    got = fn()
                except GivenUp:
                    ctx.counters['undecided analyses'] += 1
                    got, exc = None, GivenUp()
            ch = held.changed()
            if ch:
                ctx.violation('earlier-result-changed', 'step %d: arrays returned by %s' % (q, ch), where)
                return
            if hit:
                ctx.hashes.append('%s %s' % (where, hit))
            if exc is not None:
                last, before = (q, hit), True
                ctx.counters['analyses that failed'] += 1
                continue
            ctx.counters['analyses'] += 1
            ctx.counters[where] += 1
            ctx.counters['load steps'] += len(got[0])
            d = judge(st, model, ref, got[0], got[1], ctx)
            reached = got[0][-1] if len(got[0]) else 0.
            if d is None and (abs(reached - 1.) > 1e-9 if st['opts']['NL_method'] == 'NR' or not st['NL'] else reached < .2):
                # does the analysis of the reference get there?
                cb = Callbacks(ref)
                try:
                    other = analysis(st, cb.fext, cb.fint, cb.kC, cb.kG).static(NLgeom=st['NL'], silent=True)
                except GivenUp:
                    other = [], []
                inc0 = st['opts']['initialInc']
                easy = other[0] and abs(other[0][-1] - 1.) < 1e-9 and all(v > .999 * inc0 for v in np.diff([0.] + list(other[0]))[:-1])
                if other[0] and other[0][-1] > reached + 1e-3 and (not st['NL'] or easy and (not st['opts']['modified_NR'] or reached == 0.)):
                    # at the limit of what converges the last bits decide: is it that?
                    an = analysis(st, obj.calc_fext, obj.calc_fint, obj.calc_kC, obj.calc_kG)
                    an.relTOL = 1e-6
                    try:
                        again = an.static(NLgeom=st['NL'], silent=True)[0]
                    except GivenUp:
                        again = []
                    easy = not len(again) or again[-1] < .999 * other[0][-1]
                else:
                    easy = False
                if easy:
                    d = 'load-not-reached', 'stopped at %.4g of the load, the reference at %.4g' % (reached, other[0][-1])
                else:
                    ctx.counters['undecided analyses'] += 1
            if d is not None:
                ctx.violation(d[0] + ('-after-a-failure' if last else '') + ('-instead-of-an-error' if hit else ''),
                              'step %d: %s%s' % (q, d[1], ' (last failure: step %d, at %s)' % last if last else ''), where)
                return
            if not len(got[0]):
                continue
            c, inc = np.asarray(got[1][-1]), got[0][-1]
            lin = ref.solve(inc * ref.each('fext', None))
            share = (ref.energy(c - lin) / ref.energy(lin)) ** .5
            ctx.counters['analyses with nonlinear share > 0.1'] += share > .1
            if st['NL'] and KAPPA[0] == 2.:
                ctx.known_finding('product-of-slopes-counted-twice', 'nonlinear shear strain holds 2*w,x*w,y')
            if share > .1 and before:
                ctx.nontrivial = True
            ctx.observe(where, ['%.6g' % i for i in got[0]], '%.6g' % ref.energy(c))
            held.add('step %d' % q, list(got[1]))
            before = True
    ctx.counters['sessions'] += 1


def shrink(plan):
    for l in Z.less_list(plan['steps']):
        if any(s['do'] in ('solve', 'fault') for s in l):
            yield Z.with_(plan, steps=l)
    if plan['fill'] is not None:
        yield Z.with_(plan, fill=None)
    for i, s in enumerate(plan['steps']):
        def rep(t):
            return Z.with_(plan, steps=plan['steps'][:i] + [t] + plan['steps'][i + 1:])
        if s['do'] == 'fault':
            yield rep(dict(do='solve', s=s['s']))
        if s['do'] in ('solve', 'fault'):
            t = s['s']
            for k, v in (('modified_NR', False), ('line_search', False), ('NL_method', 'NR'), ('initialInc', 1.)):
                if t['opts'][k] != v:
                    yield rep(dict(s, s=dict(t, opts=dict(t['opts'], **{k: v}))))
            if t['loads'] and sum(map(len, t['loads'])) > 1:
                yield rep(dict(s, s=dict(t, loads=[l[:1] if j == 0 else [] for j, l in enumerate(t['loads'])])))
    for m in Z.simpler_model(plan['model']):
        if m['kind'] == 'md' and len(m['spec']['conn']) < len(plan['model']['spec']['conn']):
            continue
        yield Z.with_(plan, model=m)
