"""Ready-made analyses (panels.multidomain: cylinders, stiffened cylinders, T-stiffened panels): what they return is the solution of the structure their arguments describe,
whatever was called before, failed before, or runs at the same time."""
import copy
import math

import numpy as np
import scipy.linalg as sl

from .. import common as Z
from .. import env
from .. import models as M

RUNS = dict(quick=1200, thorough=20000)
WALL = dict(quick=70, thorough=780)
RULE = ('one simulated session = one seed: calls of the ready-made analyses with their arguments, calls interrupted at a line of the library or with failing allocations before them, '
        'pairs of calls in two threads, and later use of the assemblies they returned; non-trivial when a fault fired, threads were switched or two analyses were completed')
DISTINCT = 'distinct digests of the eigenvalues and static solutions (rounded), places where faults struck and sequences of thread switches'
REAL = Z.REAL
STUB = ['thread scheduling: callers and OpenMP workers (libsim, one runnable thread at a time)', 'asynchronous exceptions', 'allocation failures', 'contents of fresh memory',
        'reference: independent dense NumPy model of the documented assembly, dense LAPACK solutions']
ASSUME = ['structsolve returns eigenpairs of the matrices it is given (it verifies them); when it reports that no solver passed its verification, and reports it for the reference matrices '
          'as well, the call has no answer', 'at least 3 terms along each direction']
TIME = 'no clock in the simulated code; time is measured in lines of the library and scheduling points, see counters'


def preload():
    M.kappa_probe()
    import panels.multidomain.cylinder, panels.multidomain.cylinder_blade_stiffened  # noqa
    import panels.multidomain.tstiff2d_1stiff_compression, panels.multidomain.tstiff2d_1stiff_flutter, panels.multidomain.tstiff2d_1stiff_freq  # noqa


FNS = dict(cyl_new='cylinder.create_cylinder_assy', cyl_cte='cylinder.cylinder_compression_lb_Nxx_cte', cyl_static='cylinder.cylinder_compression_lb_Nxx_from_static',
           cyl_spla='cylinder.cylinder_spla', bla_new='cylinder_blade_stiffened.create_cylinder_blade_stiffened',
           bla_cte='cylinder_blade_stiffened.cylinder_blade_stiffened_compression_lb_Nxx_cte',
           bla_static='cylinder_blade_stiffened.cylinder_blade_stiffened_compression_lb_Nxx_from_static',
           t_comp='tstiff2d_1stiff_compression.tstiff2d_1stiff_compression', t_freq='tstiff2d_1stiff_freq.tstiff2d_1stiff_freq',
           t_flut='tstiff2d_1stiff_flutter.tstiff2d_1stiff_flutter')
LINES = dict(cyl_new=60, cyl_cte=700, cyl_static=1200, cyl_spla=5000, bla_new=100, bla_cte=1500, bla_static=2500, t_comp=3000, t_freq=2500, t_flut=4000)


# ------------------------------------------------------------------ arguments
def gen_job(rng, fn=None, small=False):
    fn = fn or rng.choice(['cyl_new', 'cyl_cte', 'cyl_static', 'cyl_static', 'cyl_spla', 'bla_new', 'bla_cte', 'bla_static', 'bla_static', 't_comp', 't_comp', 't_freq', 't_flut'])
    hi = 3 if small else 4
    r6 = lambda v: float('%.4g' % v)
    A = dict(laminaprop=rng.choice(M.PROPS), m=rng.randint(3, hi), n=rng.randint(3, hi))
    if fn[:3] in ('cyl', 'bla'):
        k = 2 if small else rng.choice([2, 2, 3, 4])
        r = rng.choice([100., 250., 60.])
        A.update(height=r6(r * rng.uniform(.8, 2.5)), r=r, stack=M.gen_stack(rng), plyt=r6(r * rng.choice([5e-4, 2e-3])), npanels=k)
        if fn[:3] == 'bla':
            A['stack_blades'] = [M.gen_stack(rng) for _ in range(k)]
            A['width_blades'] = [r6(r * rng.uniform(.1, .4)) for _ in range(k)]
        load = lambda: r6(-rng.uniform(.2, 3)) if rng.random() < .85 else 0.
        loads = lambda: [load() for _ in range(k - 1)] + [r6(-rng.uniform(.2, 3))]
        if fn in ('cyl_cte', 'cyl_static'):
            A['Nxxs'] = loads()
        elif fn in ('bla_cte', 'bla_static'):
            A['Nxxs_skin'], A['Nxxs_blade'] = loads(), loads()
        elif fn == 'cyl_spla':
            A['m'] = A['n'] = 3
            A['npanels'] = 2
            A['frac'], A['fspla'] = round(rng.uniform(.05, .3), 3), round(rng.uniform(.1, 1.), 3)
        if fn in ('cyl_cte', 'cyl_static', 'bla_cte', 'bla_static') and rng.random() < .4:
            A['num_eigvalues'] = rng.choice([3, 8, 15])
    else:
        a = rng.choice([100., 500., 1.2e3])
        b = r6(a * rng.uniform(.4, 1.))
        bb = r6(b * rng.uniform(.1, .3))
        A.update(a=a, b=b, ys=r6(b * rng.uniform(.3, .7)), bb=bb, bf=r6(b * rng.uniform(.05, .3)), defect_a=rng.choice([0., .05, .2, .5]), rho=rng.choice([1.6e-9, 2.7e-9]),
                 plyt=r6(a * rng.choice([5e-4, 2e-3])), stack_skin=M.gen_stack(rng), stack_base=M.gen_stack(rng), stack_flange=M.gen_stack(rng),
                 r=rng.choice([None, None, a * 2, a * 5]))
        A['m'] = A['n'] = 3
        for q in ('mb', 'nb', 'mf', 'nf'):
            if rng.random() < .3:
                A[q] = rng.randint(3, 4)
        if fn != 't_freq':
            A['run_static_case'] = rng.random() < .6
            for q in ('skin', 'base', 'flange'):
                A['Nxx_' + q] = r6(-rng.uniform(.2, 3))
        if fn == 't_comp':
            for q, d in (('nx', 'm'), ('ny', 'n'), ('nxb', 'mb'), ('nyb', 'nb'), ('nxf', 'mf'), ('nyf', 'nf')):
                if rng.random() < .3:
                    A[q] = (A.get(d) or A[d[0]]) + rng.randint(1, 3)
        if fn == 't_flut':
            A.update(Mach=rng.choice([1.5, 2., 3.]), rho_air=1.2e-12 * rng.choice([.1, 1.]), air_speed=rng.choice([3e5, 7e5]), speed_sound=3.4e5, flow=rng.choice('xxy'))
            if A['run_static_case'] and rng.random() < .2:
                for q in ('skin', 'base', 'flange'):
                    A['Nxx_' + q] = None
            elif rng.random() < .8:
                # well below buckling, also for thick ones it is a change one can see
                for q in ('skin', 'base', 'flange'):
                    A['Nxx_' + q] = r6(A['Nxx_' + q] * 1e-3)
    return dict(fn=fn, args=A)


def gen_fault(rng):
    k = rng.choice(['line', 'line', 'line', 'alloc', 'heap'])
    f = dict(kind=k, at=round(rng.random() ** 1.5, 4), fill=rng.choice([None, rng.getrandbits(60)]))
    if k == 'line':
        f['exc'] = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError'])
    else:
        f['n'] = rng.choice([1, 1, 2, 1000]) if k == 'alloc' else rng.choice([1, 1, 3])
    return f


def gen(rng, tier, i):
    steps = []
    fam = rng.choice([None, None, 'cyl', 'bla', 't_'])
    pool = [f for f in FNS if fam is None or f.startswith(fam)]
    n = rng.randint(2, 4) if tier == 'quick' else rng.randint(2, 9)
    for _ in range(n):
        u = rng.random()
        if u < .25:
            steps.append(dict(do='fault', job=gen_job(rng, rng.choice(pool)), f=gen_fault(rng)))
        elif u < .33:
            fs = [f for f in pool if f in ('cyl_new', 'cyl_cte', 'cyl_static', 'bla_cte', 'bla_static', 'bla_new')] or ['t_freq', 't_comp']
            one = rng.choice(fs)
            steps.append(dict(do='threads', jobs=[gen_job(rng, one, True), gen_job(rng, one if rng.random() < .6 else rng.choice(fs), True)],
                              sched=dict(seed=rng.getrandbits(60), maxq=rng.choice([20, 200, 2000]), grant_p=rng.choice([0, 20]), threads=2)))
        elif u < .5 and steps:
            steps.append(dict(do='use', which=rng.randrange(8), kind=rng.choice(['uvw', 'strain', 'stress', 'kG', 'kM', 'fint', 'uvw_gauss', 'strain_gauss', 'fext', 'kC']), seed=rng.getrandbits(40)))
        else:
            steps.append(dict(do='call', job=gen_job(rng, rng.choice(pool))))
    if not any(s['do'] == 'call' for s in steps):
        steps.append(dict(do='call', job=gen_job(rng, rng.choice(pool))))
    return dict(steps=steps, fill=rng.choice([None, rng.getrandbits(60)]))


# ------------------------------------------------------------------ the structure the arguments describe
def base_panel(A, **kw):
    p = dict(a=None, b=None, r=None, stack=None, plyt=A['plyt'], plyts=None, laminaprop=A['laminaprop'], laminaprops=None, rho=0., rhos=None, offset=0., m=A['m'], n=A['n'], nx=None, ny=None,
             x1=-1, x2=1, y1=-1, y2=1, bc={k: 1. for k in M.BC}, N=[0., 0., 0.], Ncte=[0., 0., 0.], flow='x', beta=None, gamma=None, Mach=None, rho_air=None, V=None, ortho=False,
             cores=1, loads=[], name='', x0=0., y0=0., group='')
    p.update(kw)
    p['nx'] = p['nx'] or 2 * p['m']
    p['ny'] = p['ny'] or 2 * p['n']
    return p


def hold(p, edges, dofs):
    for e in edges:
        for d in dofs:
            p['bc'][e + d] = 0.


def structure(job):
    """(md spec, {c or None: ...}) of the documented assembly, its loads included."""
    fn, A = job['fn'], job['args']
    P, conn = [], []
    if fn[:3] in ('cyl', 'bla'):
        k = A['npanels']
        b = 2 * math.pi * A['r'] / k
        for i in range(k):
            P.append(base_panel(A, group='skin', a=A['height'], b=b, r=A['r'], stack=A['stack'], y0=i * b))
        if fn[:3] == 'bla':
            for i in range(k):
                P.append(base_panel(A, group='blade_%02d' % i, a=A['height'], b=A['width_blades'][i], stack=A['stack_blades'][i], y0=i * b))
        for p in P:
            hold(p, ['x1', 'x2'], 'uvw')
            if not fn.endswith('_new'):
                p['bc']['x2u'] = 1.     # the loaded edge moves along x
        for i in range(k):
            conn.append(dict(func='SSycte', p1=i, p2=(i + 1) % k, c1='b', c2='0'))
            if fn[:3] == 'bla':
                conn.append(dict(func='BFycte', p1=i, p2=k + i, c1='0', c2='0'))
        N = None
        if fn in ('cyl_cte', 'cyl_static'):
            N = A['Nxxs']
        elif fn in ('bla_cte', 'bla_static'):
            N = list(A['Nxxs_skin']) + list(A['Nxxs_blade'])
        elif fn == 'cyl_spla':
            N = [A['Nxx']] * k
        if N is not None:
            for p, q in zip(P, N):
                if fn.endswith('_cte'):
                    p['N'] = [q, 0., 0.]
                else:
                    p['loads'] = [dict(kind='dx', x=1., y=0., v=[q, 0., 0.], lin=0., cte=True, k=1., none=[False, True, True])]
        if fn == 'cyl_spla':
            P[0]['loads'] = P[0]['loads'] + [dict(kind='pl', x=.5, y=.5, v=[0., 0., -A['SPLA']], lin=0., cte=True, k=1., none=[False] * 3)]
    else:
        d = A['defect_a'] * A['a'] or .33 * A['a']
        side = (A['a'] - d) / 2.
        rows = [(side + d, side), (side, d), (0., side)]
        left, right = A['b'] - A['ys'] - A['bb'] / 2., A['ys'] - A['bb'] / 2.
        cols = [(A['ys'] + A['bb'] / 2., left), (A['ys'] - A['bb'] / 2., A['bb']), (0., right)]
        g = lambda q, d: A.get(q) or A[d]
        dims = dict(skin=(A['m'], A['n']), base=(g('mb', 'm'), g('nb', 'n')), flange=(g('mf', 'm'), g('nf', 'n')))
        comp = fn == 't_comp'
        num = {}
        for part, sx in (('skin', ''), ('base', 'b'), ('flange', 'f')):
            m, n = dims[part]
            num[part] = dict(m=m, n=n, nx=(A.get('nx' + sx) or m) if comp else None, ny=(A.get('ny' + sx) or n) if comp else None, rho=A['rho'], group=part,
                             stack=A['stack_' + part])
        static = A.get('run_static_case', False) and fn != 't_freq'
        moves = static if comp else True
        air = dict(Mach=A['Mach'], rho_air=A['rho_air'], V=A['air_speed'], flow=A['flow']) if fn == 't_flut' else {}
        for i, (x0, a) in enumerate(rows):
            for j, (y0, b) in enumerate(cols):
                p = base_panel(A, x0=x0, y0=y0, a=a, b=b, r=A['r'], **num['skin'], **air)
                if i == 0:
                    hold(p, ['x2'], 'uvw')
                if i == 2:
                    hold(p, ['x1'], 'vw' if moves else 'uvw')
                if j == 0:
                    hold(p, ['y2'], 'vw')
                if j == 2:
                    hold(p, ['y1'], 'vw')
                P.append(p)
        for i, (x0, a) in enumerate(rows):
            P.append(base_panel(A, x0=x0, y0=cols[1][0], a=a, b=A['bb'], r=A['r'], **num['base']))
            p = base_panel(A, x0=x0, y0=0., a=a, b=A['bf'], **num['flange'])
            if i == 0:
                hold(p, ['x2'], 'uvw')
            if i == 2:
                hold(p, ['x1'], 'vw' if moves else 'uvw')
            P.append(p)
        sk = lambda i, j: 3 * i + j
        ba, fl = (lambda i: 9 + 2 * i), (lambda i: 10 + 2 * i)
        for i in range(3):
            for j in range(2):
                conn.append(dict(func='SSycte', p1=sk(i, j), p2=sk(i, j + 1), c1='0', c2='b'))
            if i != 1 or not A['defect_a'] > 0:
                conn.append(dict(func='SB', p1=sk(i, 1), p2=ba(i)))
            conn.append(dict(func='BFycte', p1=ba(i), p2=fl(i), c1='half', c2='0'))
        for i in range(2):
            for q in [lambda i, j=j: sk(i, j) for j in range(3)] + [ba, fl]:
                conn.append(dict(func='SSxcte', p1=q(i), p2=q(i + 1), c1='0', c2='a'))
        if fn != 't_freq':
            for p in P:
                q = A['Nxx_' + p['group']]
                if not static:
                    p['N'] = [q or 0., 0., 0.]
                elif p['x0'] == 0. and q is not None:
                    # pushes at x = 0 (a negative resultant compresses)
                    p['loads'] = [dict(kind='dx', x=0., y=0., v=[-q, 0., 0.], lin=0., cte=True, k=1., none=[False, True, True])]
    return dict(ax='y', panels=P, conn=conn, cores=1, order=list(range(len(P))))


class Ref(object):
    """Matrices and dense solutions of a structure."""
    def __init__(self, spec, A):
        self.spec = spec
        self.K = M.expect_md(spec, dict(op='kC'))['kC']
        self.used = np.flatnonzero(np.any(self.K != 0, axis=1))
        u = np.ix_(self.used, self.used)
        self.u = u
        Ku = self.K[u]
        self.d = 1. / np.sqrt(np.abs(np.diag(Ku)))
        self.cho = sl.cho_factor(Ku * np.outer(self.d, self.d))

    def solve(self, B):
        d = self.d if B.ndim == 1 else self.d[:, None]
        return d * sl.cho_solve(self.cho, d * B)

    def fext(self, inc=1.):
        return M.expect_md(self.spec, dict(op='fext', inc=inc))['fext']

    def static(self):
        c = np.zeros(len(self.K))
        c[self.used] = self.solve(self.fext()[self.used])
        return c

    def blocks(self, op, c=None):
        pos, size = M.md_layout(self.spec)
        out = np.zeros((size, size))
        for i in self.spec['order']:
            s = slice(*pos[i])
            p = self.spec['panels'][i]
            if op == 'kA' and p['Mach'] is None:
                continue
            out[s, s] = M.expect_c(p, dict(op=op, NL=None), None if c is None else c[s])[op]
        return out

    def energy(self, c):
        u = c[self.used]
        return float(u @ self.K[self.u] @ u)


def close_vectors(ref, got, exp):
    if got.shape != exp.shape:
        return 'shape %s, expected %s' % (got.shape, exp.shape)
    if not np.all(np.isfinite(got)):
        return 'not finite'
    free = np.setdiff1d(np.arange(len(got)), ref.used)
    if np.any(got[free]):
        return 'not null where nothing moves'
    e, d = ref.energy(exp), ref.energy(got - exp)
    if not d <= 1e-8 * e + 1e-300:
        return 'strain energy of the difference %.3g of %.3g' % (d, e)
    return None


def check_pairs(ref, G, Mm, vals, vecs, num, what):
    """Eigenpairs (K + vals*G) v = 0 [Mm None], or (K0 + vals*M) v = 0 with K0 = K + G. -> (problem or None, worst differences)"""
    vals, vecs = np.asarray(vals), np.asarray(vecs)
    if vecs.ndim != 2 or vecs.shape[0] != len(ref.K) or vecs.shape[1] != len(vals) or not len(vals):
        return '%d eigenvalues, eigenvectors of shape %s for %d constants' % (len(vals), vecs.shape, len(ref.K)), 0.
    free = np.setdiff1d(np.arange(len(ref.K)), ref.used)
    if np.any(vecs[free]):
        return 'mode not null where nothing moves', 0.
    u = ref.u
    if Mm is None:
        T = ref.solve(G[u])                    # mu = -1/val
        d = ref.d
        L = np.linalg.cholesky(ref.K[u] * np.outer(d, d))
        Q = sl.solve_triangular(L, (G[u] * np.outer(d, d)), lower=True)
        Q = sl.solve_triangular(L, Q.T, lower=True)
        mus = np.linalg.eigvalsh((Q + Q.T) / 2)
    else:
        K0 = ref.K[u] + G[u]
        d = ref.d
        T = d[:, None] * np.linalg.solve(K0 * np.outer(d, d), d[:, None] * Mm[u])
        mus = np.linalg.eigvals(T)
    big = np.abs(mus).max()
    lead = -1. / vals
    worst = 0.
    keep = np.abs(lead) > 1e-5 * big
    for i in np.flatnonzero(keep):
        gap = np.sort(np.abs(mus - lead[i]))
        if not gap[0] <= 1e-4 * abs(lead[i]):
            # two modes about to become one are sensitive
            if not (Mm is not None and np.iscomplexobj(mus) and gap[1] <= 1e-2 * abs(lead[i])):
                return '%s %.8g: the nearest of the structure is %.8g' % (what, vals[i].real, (-1. / mus[np.argmin(np.abs(mus - lead[i]))]).real), 0.
        v = vecs[ref.used, i]
        res = T @ v - lead[i] * v
        q = lambda x: float(np.sqrt(abs(np.vdot(x, ref.K[u] @ x))))
        e = q(res) / (abs(lead[i]) * q(v)) if q(v) else np.inf
        worst = max(worst, min(e, 1e3))
        if not e <= 2e-2:
            return 'the mode of %s %.8g does not satisfy the equations of the structure (%.2g)' % (what, vals[i].real, e), e
    # the one that governs the design is there
    if Mm is None:
        pos = mus[mus < 0]
        first = -1. / pos.min() if pos.size else None
        got = vals.real[vals.real > 0]
        if first is not None and (not got.size or not abs(got.min() - first) <= 1e-4 * first):
            return 'lowest %s %.8g, that of the structure is %.8g' % (what, got.min() if got.size else np.nan, first), worst
    else:
        m = mus[mus.real > 0]         # statically unstable ones are not reported
        if not m.size:
            return None, worst
        m = m[np.argmax(np.abs(m))]
        if not np.min(np.abs(lead - m)) <= 1e-2 * abs(m):
            return 'lowest %s of the structure (%.8g) is missing' % (what, (-1. / m).real), worst
    return None, worst


def attributes(spec, assy, mod):
    """The assembly returned is made of the documented panels."""
    if len(assy.panels) != len(spec['panels']):
        return '%d panels, expected %d' % (len(assy.panels), len(spec['panels']))
    for i, (p, e) in enumerate(zip(assy.panels, spec['panels'])):
        for k in ('a', 'b', 'x0', 'y0', 'plyt', 'm', 'n', 'nx', 'ny'):
            if not abs(getattr(p, k) - e[k]) <= 1e-12 * abs(e[k]):
                return 'panel %d: %s = %r, expected %r' % (i, k, getattr(p, k), e[k])
        for k, v in e['bc'].items():
            if getattr(p, k) != v:
                return 'panel %d: %s = %r, expected %r' % (i, k, getattr(p, k), v)
        if p.group != e['group']:
            return 'panel %d: group %r, expected %r' % (i, p.group, e['group'])
        if list(p.stack) != list(e['stack']) or list(p.laminaprop) != list(e['laminaprop']):
            return 'panel %d: laminate %r' % (i, (p.stack, p.laminaprop))
        if (p.r or 0.) != (e['r'] or 0.):
            return 'panel %d: r = %r, expected %r' % (i, p.r, e['r'])
    return None


# ------------------------------------------------------------------ simulation
def resolve(job):
    """Arguments with the loads of nonlinear cases set below the buckling load of the structure."""
    job = copy.deepcopy(job)
    A = job['args']
    if 'frac' in A and 'Nxx' not in A:
        spec = structure(dict(fn='cyl_cte', args=dict(A, Nxxs=[-1.] * A['npanels'])))
        ref = Ref(spec, A)
        G = ref.blocks('kG')
        d = ref.d
        L = np.linalg.cholesky(ref.K[ref.u] * np.outer(d, d))
        Q = sl.solve_triangular(L, sl.solve_triangular(L, G[ref.u] * np.outer(d, d), lower=True).T, lower=True)
        lam = -1. / np.linalg.eigvalsh((Q + Q.T) / 2).min()
        # rounded coarsely: the call must not depend on the last bits of the reference
        A['Nxx'] = -float('%.2g' % (A['frac'] * lam))
        A['SPLA'] = float('%.2g' % (A['fspla'] * 1e-3 * lam * A['plyt'] * len(A['stack'])))
    return job


def call_args(job):
    A = {k: copy.deepcopy(v) for k, v in job['args'].items() if k not in ('frac', 'fspla')}
    if 'laminaprop' in A:
        A['laminaprop'] = tuple(A['laminaprop'])
    return A


def function(fn):
    import importlib
    mod, name = FNS[fn].split('.')
    return getattr(importlib.import_module('panels.multidomain.' + mod), name)


def no_answer(exc):
    return isinstance(exc, RuntimeError) and 'no eigenvalue solver' in str(exc)


def verify(job, out, ctx):
    """None or (kind, detail)"""
    fn, A = job['fn'], job['args']
    spec = structure(job)
    static = fn in ('cyl_static', 'bla_static') or (fn in ('t_comp', 't_flut') and A['run_static_case'])
    n = 2 if fn.endswith('_new') else 3 if fn == 'cyl_spla' or not static else 4
    if not isinstance(out, tuple) or len(out) != n:
        return 'result', '%s results, expected %d' % (len(out) if isinstance(out, tuple) else type(out), n)
    assy = out[0]
    d = attributes(spec, assy, fn)
    if d:
        return 'wrong-structure', d
    if fn.endswith('_new'):
        got = assy.calc_kC(out[1], silent=True).toarray()
        m = M.mismatch(dict(kC=got), M.expect_md(spec, dict(op='kC')))
        return ('wrong-structure', m) if m else None
    ref = Ref(spec, A)
    if fn == 'cyl_spla':
        incs, cs = out[1:]
        if len(incs) != len(cs) or not len(incs) or list(incs) != sorted(incs):
            return 'increments', repr(incs)
        if abs(incs[-1] - 1.) > 1e-9:
            return 'load-not-reached', 'stopped at %r of the load' % (incs[-1],)
        for inc, c in zip(incs, cs):
            op = dict(op='fint')
            f = np.zeros(len(c))
            pos, size = M.md_layout(spec)
            for i in spec['order']:
                s = slice(*pos[i])
                f[s] = M.expect_c(spec['panels'][i], op, np.asarray(c)[s])['fint']
            f += M.conn_ref(spec) @ c
            r = f - inc * ref.fext()
            dc = ref.solve(r[ref.used])
            e = float(dc @ ref.K[ref.u] @ dc)
            if not e <= 1e-8 * ref.energy(np.asarray(c)):
                return 'no-equilibrium', 'at %.4g of the load: energy of the imbalance %.3g of %.3g' % (inc, e, ref.energy(np.asarray(c)))
        ctx.observe('spla', ['%.6g' % i for i in incs])
        return None
    c = None
    if static:
        c = ref.static()
        unloaded = not np.any(ref.fext())
        if unloaded and out[1] is None:
            c = None
        else:
            if out[1] is None:
                return 'wrong-static', 'no static solution'
            d = close_vectors(ref, np.asarray(out[1]), c)
            if d:
                return 'wrong-static', d
    G = ref.blocks('kG', c)
    vals, vecs = out[-2:]
    if fn == 't_freq':
        d, w = check_pairs(ref, 0. * G, ref.blocks('kM'), vals, vecs, 25, 'eigenvalue')
    elif fn == 't_flut':
        d, w = check_pairs(ref, G + ref.blocks('kA'), ref.blocks('kM'), vals, vecs, 25, 'eigenvalue')
    else:
        if 'num_eigvalues' in A and len(vals) > A['num_eigvalues']:
            return 'result', '%d eigenvalues, %d asked for' % (len(vals), A['num_eigvalues'])
        d, w = check_pairs(ref, G, None, vals, vecs, A.get('num_eigvalues', 20), 'load multiplier')
    ctx.counters['worst mode residual (1e-9)'] = max(ctx.counters['worst mode residual (1e-9)'], int(w * 1e9))
    ctx.observe(fn, '%.5g' % float(np.min(np.abs(vals))))
    return ('wrong-eigenpairs', d) if d else None


def state(out):
    """Fingerprint of everything a call returned."""
    from . import f06
    vals = []
    for x in out[1:]:
        if isinstance(x, np.ndarray):
            vals.append(x.tobytes())
        elif isinstance(x, list):
            vals.append([v.tobytes() if isinstance(v, np.ndarray) else {k: (id(w) if hasattr(w, 'calc_kC') else w) for k, w in v.items()} if isinstance(v, dict) else v for v in x])
        else:
            vals.append(repr(x))
    return dict(defs=[f06.definition(p, 'shell') for p in out[0].panels], arrays=vals, panels=[id(p) for p in out[0].panels])


def changed(a, b):
    from . import f06
    if a['panels'] != b['panels']:
        return 'its list of panels'
    for i, (x, y) in enumerate(zip(a['defs'], b['defs'])):
        d = f06.differ(x, y)
        if d:
            return 'panel %d: %s' % (i, d)
    for i, (x, y) in enumerate(zip(a['arrays'], b['arrays'])):
        if x != y:
            return 'result %d' % (i + 1)
    return None


EXC = dict(KeyboardInterrupt=env.SimKeyboardInterrupt, MemoryError=env.SimMemoryError)


def disturbed(f, fn, job, ctx):
    """(result or None, exception or None, place or None)"""
    k = int(f['at'] * LINES[job['fn']])
    inj = None
    try:
        if f['kind'] == 'line':
            with env.inject_at_line(k, EXC[f['exc']]) as inj:
                got = fn()
            return got, None, inj.fired
        if f['kind'] == 'alloc':
            with env.failing_alloc(k // 2, f['n']) as inj:
                got = fn()
            return got, None, 'alloc' if inj.fired else None
        with env.heap(fill=f['fill'], fail_at=k // 8, fail_len=f['n']) as inj:
            got = fn()
        return got, None, 'heap' if inj.failed else None
    except (env.SimKeyboardInterrupt, MemoryError) as e:
        ctx.faults['%s during a ready-made analysis' % (f['exc'] if f['kind'] == 'line' else 'NumPy allocation fails' if f['kind'] == 'alloc' else 'malloc fails')] += 1
        return None, e, inj.fired if f['kind'] == 'line' else '%s %d' % (f['kind'], k)
    except Exception as e:
        # a MemoryError that scipy or structsolve turned into another exception
        if f['kind'] not in ('alloc', 'heap') or not (inj.fired if f['kind'] == 'alloc' else inj.failed):
            raise
        ctx.faults['NumPy allocation fails during a ready-made analysis' if f['kind'] == 'alloc' else 'malloc fails during a ready-made analysis'] += 1
        return None, e, '%s %d' % (f['kind'], k)


def run(plan, ctx):
    kept = []       # (job, result, fingerprint, step)
    disturbed_before = None
    done = 0

    def settle(q, job, args, args0, out, kind0):
        nonlocal done
        where = job['fn']
        if args != args0:
            bad = [k for k in args0 if args.get(k) != args0[k]]
            ctx.violation('arguments-modified', 'step %d: %s' % (q, bad), where)
            return False
        d = verify(job, out, ctx)
        ctx.counters['analyses'] += 1
        ctx.counters[where] += 1
        if d:
            kind = d[0] + ('-after-a-failure' if disturbed_before else '') + kind0
            ctx.violation(kind, 'step %d: %s%s' % (q, d[1], ' (last failure: step %d, at %s)' % disturbed_before if disturbed_before else ''), where)
            return False
        done += 1
        if done > 1:
            ctx.nontrivial = True
        kept.append((job, out, state(out), q))
        return True

    with env.heap(fill=plan['fill']):
        for q, st in enumerate(plan['steps']):
            if st['do'] == 'threads':
                jobs = [resolve(j) for j in st['jobs']]
                args = [call_args(j) for j in jobs]
                args0 = copy.deepcopy(args)
                fns = [lambda j=j, a=a: function(j['fn'])(**a) for j, a in zip(jobs, args)]
                res, stt, tr = env.run_threads(fns, st['sched'])
                ctx.hashes.append('%x' % stt['hash'])
                ctx.traces.append([q, tr])
                for k in ('points', 'switches', 'py_points'):
                    ctx.counters[k] += stt[k]
                ctx.faults['thread switches'] += stt['switches']
                if stt['switches'] > 3:
                    ctx.nontrivial = True
                for (k, v), j, a, a0 in zip(res, jobs, args, args0):
                    if k == 'exc':
                        if no_answer(v) and undecided(j):
                            ctx.counters['without answer'] += 1
                            continue
                        raise v
                    if not settle(q, j, a, a0, v, '-with-another-thread'):
                        return
            elif st['do'] in ('call', 'fault'):
                job = resolve(st['job'])
                args = call_args(job)
                args0 = copy.deepcopy(args)
                fn = lambda: function(job['fn'])(**args)
                try:
                    if st['do'] == 'call':
                        out, exc, hit = fn(), None, None
                    else:
                        out, exc, hit = disturbed(st['f'], fn, job, ctx)
                except RuntimeError as e:
                    if no_answer(e) and (st['do'] == 'fault' or undecided(job)):
                        ctx.counters['without answer'] += 1
                        continue
                    raise
                if hit:
                    ctx.nontrivial = True
                    ctx.hashes.append('%s %s' % (job['fn'], hit))
                if exc is not None:
                    ctx.counters['analyses that failed'] += 1
                    disturbed_before = (q, hit)
                    if args != args0:
                        ctx.violation('arguments-modified', 'step %d: interrupted at %s' % (q, hit), job['fn'])
                        return
                elif not settle(q, job, args, args0, out, '-instead-of-an-error' if hit else ''):
                    return
            else:
                if not kept:
                    continue
                job, out, fp, q0 = kept[st['which'] % len(kept)]
                if not use(st, q, job, out, ctx):
                    return
                if st['kind'] in ('kC',):
                    continue
            for job, out, fp, q0 in kept:
                d = changed(fp, state(out))
                if d:
                    ctx.violation('earlier-result-changed', 'step %d: %s of the assembly returned at step %d' % (q, d, q0), job['fn'])
                    return
    ctx.counters['sessions'] += 1


def undecided(job):
    """Does the solver report that it has no answer for the matrices of the reference, too?"""
    import structsolve
    from scipy.sparse import csr_matrix
    spec = structure(job)
    ref = Ref(spec, job['args'])
    fn, A = job['fn'], job['args']
    static = fn in ('cyl_static', 'bla_static') or (fn in ('t_comp', 't_flut') and A['run_static_case'])
    G = ref.blocks('kG', ref.static() if static else None)
    try:
        if fn in ('t_freq', 't_flut'):
            structsolve.freq(csr_matrix(ref.K + (G + ref.blocks('kA') if fn == 't_flut' else 0. * G)), csr_matrix(ref.blocks('kM')), silent=True, num_eigvalues=25, num_eigvalues_print=5)
        else:
            structsolve.lb(csr_matrix(ref.K), csr_matrix(G), silent=True, num_eigvalues=A.get('num_eigvalues', 25 if fn[0] == 't' else 20), num_eigvalues_print=5)
    except RuntimeError:
        return True
    return False


def use(st, q, job, out, ctx):
    """Something asked of an assembly returned before."""
    import random
    spec = structure(job)
    if job['fn'][0] == 't':
        for p in spec['panels']:
            if job['args'].get('run_static_case'):
                p['N'] = [0., 0., 0.]
    kind = st['kind']
    if kind == 'fext' and job['fn'][0] == 't' or kind == 'fint' and job['fn'] != 'cyl_spla' or kind == 'kM' and job['fn'][0] != 't' or kind == 'kC' and job['fn'] != 'cyl_spla':
        kind = 'strain'
    op = M.gen_md_op(random.Random(st['seed']), spec, [kind])
    got = M.perform_md(out[0], spec, op)
    ctx.counters['uses of returned assemblies'] += 1
    m = M.mismatch(got, M.expect_md(spec, op))
    if m:
        ctx.violation('returned-assembly-unusable', 'step %d: %s: %s' % (q, kind, m), job['fn'])
        return False
    return True


# ------------------------------------------------------------------ smaller plans
def explicit(plan, res):
    tr = res.get('traces') or []
    if not tr or any(len(t[1]) > 20000 for t in tr):
        return None
    steps = copy.deepcopy(plan['steps'])
    for q, t in tr:
        if steps[q]['sched'].get('events') is None:
            steps[q]['sched']['events'] = t
    return Z.with_(plan, steps=steps)


def shrink(plan):
    for l in Z.less_list(plan['steps']):
        if l:
            yield Z.with_(plan, steps=l)
    if plan['fill'] is not None:
        yield Z.with_(plan, fill=None)
    for i, s in enumerate(plan['steps']):
        def rep(t):
            return Z.with_(plan, steps=plan['steps'][:i] + [t] + plan['steps'][i + 1:])
        if s['do'] == 'threads':
            for j in s['jobs']:
                yield rep(dict(do='call', job=j))
            ev = s['sched'].get('events')
            if ev is not None:
                for n, l in enumerate(Z.less_list(ev)):
                    if n > 60:
                        break
                    yield rep(dict(s, sched=dict(s['sched'], events=l)))
        if s['do'] == 'fault':
            yield rep(dict(do='call', job=s['job']))
        if s['do'] in ('call', 'fault'):
            A = s['job']['args']
            for k in ('num_eigvalues', 'mb', 'nb', 'mf', 'nf', 'nx', 'ny', 'nxb', 'nyb', 'nxf', 'nyf'):
                if k in A:
                    yield rep(dict(s, job=dict(s['job'], args={q: v for q, v in A.items() if q != k})))
            if A.get('r') and s['job']['fn'][0] == 't':
                yield rep(dict(s, job=dict(s['job'], args=dict(A, r=None))))
