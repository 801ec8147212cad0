"""JSON descriptions of shells, the objects built from them, and what the reference expects of each operation."""
import math
import os

import numpy as np

from . import refmodel as R

BC = [e + f + r for e in ('x1', 'x2', 'y1', 'y2') for f in 'uvw' for r in ('', 'r')]
DEFAULT_BC = {k: (1. if k.endswith('r') else 0.) for k in BC}
PROPS = [[142.5e3, 8.7e3, 0.28, 5.1e3, 5.1e3, 5.1e3], [71e3, 71e3, 0.33, 26692., 26692., 26692.], [123.55e3, 8.708e3, 0.319, 5.695e3, 5.695e3, 3.4e3]]
STACKS = [[0, 90, 90, 0], [0, 45, -45, 90], [30], [45, -45], [0], [60, 0, -30], [0, 45, -45, 90, 90, -45, 45, 0]]


class Poly(object):
    """Load function p(t) = k0 + k1*(t/L) + ...; picklable, optionally failing at the n-th call."""
    def __init__(self, k, L, fail_at=None, exc=None):
        self.k, self.L, self.fail_at, self.exc, self.calls = list(k), L, fail_at, exc, 0

    def __call__(self, t):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            raise self.exc('load function failed')
        s = t / self.L
        return sum(c * s ** i for i, c in enumerate(self.k))


def gen_bc(rng, free=None):
    bc = dict(DEFAULT_BC)
    p = rng.choice([0., .3, .7]) if free is None else free
    for k in bc:
        if rng.random() < p:
            bc[k] = float(rng.choice([0, 1]))
    return bc


def gen_stack(rng):
    return list(rng.choice(STACKS))


def gen_shell(rng, mn=(2, 4), **over):
    a = rng.choice([100., 250., 1000., 0.8])
    s = dict(a=a, b=a * rng.choice([0.5, 1., 1.7]), r=rng.choice([None, None, a * 2, a * 5, 0.]), stack=gen_stack(rng),
             plyt=a * rng.choice([1e-3, 2e-3]), plyts=None, laminaprop=rng.choice(PROPS), laminaprops=None, rho=rng.choice([1.6e-9, 2.7e-9]),
             rhos=None, offset=0. if rng.random() < .7 else a * 1e-3, m=rng.randint(*mn), n=rng.randint(*mn), nx=rng.randint(mn[1] + 1, mn[1] + 4),
             ny=rng.randint(mn[1] + 1, mn[1] + 4), x1=-1, x2=1, y1=-1, y2=1, bc=gen_bc(rng), N=[0., 0., 0.], Ncte=[0., 0., 0.],
             flow=rng.choice('xy'), beta=None, gamma=None, Mach=None, rho_air=None, V=None, ortho=rng.random() < .15, cores=rng.choice([1, 2, 3, 4, 7]),
             loads=[], name='s')
    if rng.random() < .5:
        s['N'] = [round(rng.uniform(-50, 50), 3) for _ in range(3)]
    if rng.random() < .2:
        s['Ncte'] = [round(rng.uniform(-50, 50), 3) for _ in range(3)]
    if rng.random() < .15:
        s['x1'], s['x2'] = s['a'] * .1, s['a'] * .8
    if rng.random() < .15:
        s['y1'], s['y2'] = s['b'] * .25, s['b'] * .75
    if rng.random() < .5:
        s['beta'], s['gamma'] = rng.uniform(.1, 2.), rng.choice([None, .3])
    else:
        s.update(Mach=rng.choice([1., 1.5, 2., 3.]), rho_air=.3e-3, V=rng.choice([300., 700.]))
    for _ in range(rng.randint(0, 3)):
        s['loads'].append(gen_load(rng))
    s['ctor'] = rng.random() < .5
    if rng.random() < .2 and mn[0] > 1:
        s['nx'], s['ny'] = 2 * s['m'], 2 * s['n']
    s.update(over)
    return s


def gen_load(rng):
    kind = rng.choice(['pl', 'pl', 'dx', 'dy', 'pp', 'px', 'py'])
    v = [round(rng.uniform(-3, 3), 3) for _ in range(3)]
    if rng.random() < .4:
        v[rng.randrange(3)] = 0.
    return dict(kind=kind, x=round(rng.random(), 3), y=round(rng.random(), 3), v=v, lin=round(rng.uniform(-1, 1), 3), cte=rng.random() < .5,
                k=round(rng.uniform(1, 20), 2), none=[rng.random() < .3 for _ in range(2)] + [False])


ATTRS = ['a', 'b', 'r', 'stack', 'plyt', 'plyts', 'laminaprop', 'laminaprops', 'rho', 'rhos', 'offset', 'm', 'n', 'nx', 'ny', 'x1', 'x2', 'y1', 'y2',
         'flow', 'beta', 'gamma', 'Mach', 'rho_air', 'V']


# what a shell is when nothing else is said, and what its constructor takes
DEFAULTS = dict(x1=-1, x2=1, y1=-1, y2=1, N=[0., 0., 0.], Ncte=[0., 0., 0.], ortho=False, flow='x', beta=None, gamma=None, Mach=None, rho_air=None,
                V=None, plyts=None, laminaprops=None, rhos=None, offset=0.)
CTOR = ('a', 'b', 'r', 'stack', 'plyt', 'laminaprop', 'rho', 'm', 'n', 'offset')


def tolib(key, v):
    if isinstance(v, list):
        return [tuple(x) if isinstance(x, list) else x for x in v] if key != 'laminaprop' else tuple(v)
    return v


def set_attr(s, key, v):
    """Gives the library object the value the spec has for key."""
    if key == 'bc':
        for k, x in v.items():
            setattr(s, k, x)
    elif key == 'N':
        s.Nxx, s.Nyy, s.Nxy = v
    elif key == 'Ncte':
        s.Nxx_cte, s.Nyy_cte, s.Nxy_cte = v
    elif key == 'ortho':
        s.force_orthotropic_laminate = v
    elif key == 'cores':
        s.out_num_cores = v
    elif key in ('name', 'loads'):
        pass
    else:
        setattr(s, key, tolib(key, v))


def add_load(s, spec, l):
    a, b = spec['a'], spec['b']
    x, y, v, k = l['x'] * a, l['y'] * b, l['v'], l['k']

    def f(i, L):
        return None if l['none'][i] else Poly([v[i], l['lin']], L)
    cte = l['cte']
    if l['kind'] == 'pl':
        s.add_point_load(x, y, v[0], v[1], v[2], cte=cte)
    elif l['kind'] == 'dx':
        s.add_distr_load_fixed_x(x, f(0, b), f(1, b), f(2, b), cte=cte)
    elif l['kind'] == 'dy':
        s.add_distr_load_fixed_y(y, f(0, a), f(1, a), f(2, a), cte=cte)
    elif l['kind'] == 'pp':
        s.add_point_pd(x, y, k, v[0], k, v[1], k, v[2], cte=cte)
    elif l['kind'] == 'px':
        s.add_distr_pd_fixed_x(x, *[None if l['none'][i] else k for i in range(3)], f(0, b), f(1, b), f(2, b), cte=cte)
    else:
        s.add_distr_pd_fixed_y(y, *[None if l['none'][i] else k for i in range(3)], f(0, a), f(1, a), f(2, a), cte=cte)


def make_shell(spec, loads=True):
    from panels import Shell
    keys = [k for k in spec if k not in ('loads', 'name', 'group', 'frozen', 'ctor')]
    if spec.get('ctor'):
        s = Shell(name=spec['name'], **{k: tolib(k, spec[k]) for k in CTOR if spec.get(k) is not None})
        keys = [k for k in keys if k not in CTOR]
    else:
        s = Shell()
        s.name = spec['name']
    for k in keys:
        if k == 'bc':
            set_attr(s, k, {q: v for q, v in spec[k].items() if v != DEFAULT_BC[q]})
        elif k in ('nx', 'ny') and spec.get('ctor') and spec[k] == 2 * spec[dict(nx='m', ny='n')[k]]:
            pass
        elif k not in DEFAULTS or spec[k] != DEFAULTS[k]:
            set_attr(s, k, spec[k])
    if spec.get('group'):
        s.group = spec['group']
    if loads:
        for l in spec['loads']:
            add_load(s, spec, l)
    return s


# ------------------------------------------------------------------ reference side
def geo(spec):
    return R.Geo(spec['a'], spec['b'], spec['r'], spec['m'], spec['n'], spec['bc'], spec['x1'], spec['x2'], spec['y1'], spec['y2'])


def lam(spec, offset=None):
    n = len(spec['stack'])
    plyts = spec['plyts'] or [spec['plyt']] * n
    props = spec['laminaprops'] or [spec['laminaprop']] * n
    rhos = spec['rhos'] or [spec['rho']] * n
    ABD, h, intrho = R.laminate(spec['stack'], plyts, props, rhos, spec['offset'] if offset is None else offset)
    if spec['ortho']:
        ABD = R.orthotropic(ABD)
    return ABD, h, intrho


def partial(spec):
    return (spec['x1'] != -1 and spec['x2'] != -1) or (spec['y1'] != -1 and spec['y2'] != -1)


def ref_loads(spec, inc):
    pts, lines = [], []
    a, b = spec['a'], spec['b']
    for l in spec['loads']:
        s = 1. if l['cte'] else inc
        x, y, v, k = l['x'] * a, l['y'] * b, l['v'], l['k']
        kind = l['kind']
        if kind == 'pl':
            pts.append((x, y, v[0], v[1], v[2], s))
        elif kind == 'pp':
            pts.append((x, y, k * v[0], k * v[1], k * v[2], s))
        else:
            L = b if kind in ('dx', 'px') else a
            q = k if kind in ('px', 'py') else 1.
            fs = [None if l['none'][i] else (lambda t, p=v[i], lin=l['lin'], L=L, q=q: q * (p + lin * t / L)) for i in range(3)]
            lines.append((x if kind in ('dx', 'px') else None, y if kind in ('dy', 'py') else None, fs, s))
    return pts, lines


def force(spec, inc=1.):
    """Total of the loads: what they do on functions that vanish is rounding of it."""
    tot = 0.
    for l in spec['loads']:
        s = 1. if l['cte'] else abs(inc)
        L = dict(dx=spec['b'], px=spec['b'], dy=spec['a'], py=spec['a']).get(l['kind'], 1.)
        tot += s * (max(abs(x) for x in l['v']) + abs(l['lin'])) * L * (l['k'] if l['kind'] in ('pp', 'px', 'py') else 1.)
    return tot


def vec(seed, size, amp):
    """Deterministic vector of Ritz constants."""
    return np.random.RandomState(seed & 0x7fffffff).uniform(-1, 1, size) * amp


def amp(spec):
    """Amplitude for which nonlinear terms matter."""
    return spec['a'] * 5e-3


class Given(object):
    """The arrays given to the library, in the memory layout the operation says; afterwards tells whether one of them was changed."""
    def __init__(self, op):
        self.form, self.items = op.get('form'), []

    def __call__(self, x, coord=False):
        if x is None:
            return None
        if self.form == 'list':
            if not coord:
                return x
            return float(x[0]) if x.shape == (1,) else x.tolist()
        if self.form == 'strided':
            big = np.full(x.shape[:-1] + (2 * x.shape[-1] + 1,), 3.7e5)
            big[..., 1::2] = x
            x = big[..., 1::2]
        elif self.form == 'fortran':
            x = np.array(x, order='F')
        elif self.form == 'reversed':
            x = x[::-1].copy()[::-1]
        self.items.append((x, x.copy()))
        return x

    def arrays(self):
        return [x for x, _ in self.items]

    def finish(self, out):
        for x, c in self.items:
            if not np.array_equal(x, c, equal_nan=True):
                out['_args'] = 'an array given as argument was changed'
        return out


def flowpar(spec):
    if spec['beta'] is not None:
        return spec['beta'], spec['gamma'] or 0.
    M = spec['Mach'] if spec['Mach'] != 1 else 1.0001
    q = math.sqrt(M * M - 1)
    beta = spec['rho_air'] * spec['V'] ** 2 / q
    return beta, (beta / (2. * spec['r'] * q) if spec['r'] else 0.)


def points(op, a, b):
    """Coordinates the operation asks for, in the shape the library is given them."""
    if op.get('pts') is not None:
        p = np.array(op['pts'], float).reshape(-1, 2)
        return p[:, 0] * a, p[:, 1] * b
    xs, ys = np.meshgrid(np.linspace(0, a, op['gx']), np.linspace(0, b, op['gy']))
    return xs, ys


def op_c(spec, op, size=None):
    g = geo(spec)
    return vec(op['c'], g.size, amp(spec)) if op.get('c') is not None else None


def var_ABD(spec, nx, ny, how=True):
    ABD = lam(spec)[0]
    if how == 'one':
        return 1.15 * ABD
    f = 1. + 0.2 * np.sin(np.arange(nx * ny)).reshape(nx, ny)
    return np.ascontiguousarray(ABD[None, None] * f[:, :, None, None])


def expect(spec, op):
    e = _expect(spec, op)
    e['_tol'], e['_stol'] = long_tol(spec), long_stol(spec)
    return e


def _expect(spec, op):
    """dict of arrays that the operation must give for this definition."""
    g = geo(spec)
    k = op['op']
    nx, ny = op.get('nx') or spec['nx'], op.get('ny') or spec['ny']
    c = op_c(spec, op)
    atol = 0.
    if k in ('kC', 'kG', 'kT', 'fint', 'stress'):
        ABD = lam(spec)[0]
        AB = var_ABD(spec, nx, ny, op.get('var')) if op.get('var') else ABD
    part = partial(spec)
    if k == 'kC':
        num = part or c is not None or op.get('var') or op.get('NL')
        qx, qy = (nx, ny) if num else (None, None)
        K = R.kC(g, AB, qx, qy, c if c is not None else np.zeros(g.size), op.get('NL'))
        cc = vec(op['ccte'], g.size, amp(spec)) if op.get('ccte') is not None else None
        if any(spec['Ncte']) or cc is not None:
            an = not part and not op.get('NL') and cc is None
            qx, qy = (None, None) if an else (nx, ny)
            K = K + R.kG(g, AB, qx, qy, cc, op.get('NL'), spec['Ncte'])
        return dict(kC=K)
    if k == 'kG':
        num = part or c is not None or op.get('NL')
        atol = 1e-12 * np.abs(ABD).max() * 5e-3
        if not num:
            return dict(kG=R.kG(g, ABD, None, None, None, False, spec['N']), _atol=atol)
        return dict(kG=R.kG(g, AB, nx, ny, c, op.get('NL'), spec['N']), _atol=atol)
    if k == 'kT':
        K = R.kC(g, AB, nx, ny, c if c is not None else np.zeros(g.size), True)
        if any(spec['Ncte']):
            K = K + R.kG(g, AB, nx, ny, None, True, spec['Ncte'])
        return dict(kT=K + R.kG(g, AB, nx, ny, c, True, spec['N']))
    if k == 'kM':
        _, h, intrho = lam(spec)
        if op.get('hvar'):
            f = 1. + 0.1 * np.cos(np.arange(nx * ny)).reshape(nx, ny)
            return dict(kM=R.kM(g, h * f, (intrho / h) * f, spec['offset'], nx, ny))
        qx, qy = (nx, ny) if part else (None, None)
        rho = intrho / h if part else spec['rho']
        return dict(kM=R.kM(g, h, rho, spec['offset'], qx, qy))
    if k == 'kA':
        beta, gamma = flowpar(spec)
        A = np.triu(R.kA(g, beta, gamma, spec['flow'], spec['nx'], spec['ny']))
        return dict(kA=A - np.triu(A, 1).T, _atol=1e-13 * (abs(beta) + abs(gamma) * g.a) * g.b)
    if k == 'fint':
        return dict(fint=R.fint(g, AB, c, nx, ny))
    if k == 'fext':
        return dict(fext=R.fext(g, *ref_loads(spec, op['inc'])), _atol=force(spec, op['inc']) * 1e-2 * long_stol(spec))
    if k == 'pc':
        G = R.gpoint(g, op['x'] * g.a, op['y'] * g.b)
        K = np.zeros((g.size, g.size))
        for i, on in enumerate(op['dofs']):
            if on:
                K += (op['ku'] if i < 3 else op['kp']) * np.outer(G[i], G[i])
        return dict(kPC=K, _atol=1e-14 * (op['ku'] + op['kp'] / g.a ** 2))
    if k == 'pd':
        return expect_pd(spec, op)
    xs, ys = points(op, g.a, g.b)
    if k == 'uvw':
        r = R.fields(g, c, xs.ravel(), ys.ravel())
    elif k == 'strain':
        r = R.strain(g, c, xs.ravel(), ys.ravel(), op['NL'])
    elif k == 'stress':
        r = R.stress(g, c, xs.ravel(), ys.ravel(), op['NL'], AB)
    else:
        raise KeyError(k)
    r = {q: v.reshape(xs.shape) for q, v in r.items()}
    r['_scales'] = scales(spec)
    r['Xs'], r['Ys'] = xs, ys
    return r


def pd_stiff(spec, op):
    if not op.get('pen'):
        return op['k']
    A = lam(spec)[0]
    L = dict(point=1., x=spec['b'], y=spec['a'])[op['how']]
    return [q * v / L for q, v in zip(op['k'], (A[0, 0], A[1, 1], A[0, 0]))]


def expect_pd(spec, op):
    g = geo(spec)
    x, y = (op['x'] * g.a, op['y'] * g.b)
    how = op['how']
    if how == 'point':
        X, Y, W = np.array([x]), np.array([y]), np.ones(1)
    else:
        num, L = (g.n, g.b) if how == 'x' else (g.m, g.a)
        t, w = np.polynomial.legendre.leggauss(num + 4)
        T, W = (t + 1) * L / 2., w * L / 2.
        X, Y = (x + 0 * T, T) if how == 'x' else (T, y + 0 * T)
    xi, eta = g.nat(X, Y)
    K = np.zeros((g.size, g.size))
    q = pd_stiff(spec, op)
    for f, s in zip('uvw', q):
        S = np.atleast_2d(g.S(f, xi, eta))
        K += s * np.einsum('pi,pj,p->ij', S, S, W)
    #NOTE edges that are held make the penalty vanish but for the rounding of the functions at the edge
    return dict(kCpd=K, _atol=1e-14 * max(q) * W.sum() * (long_stol(spec) / 1e-12))


def pd_penalty(s, spec, op, size=None, at=0):
    from panels.multidomain import connections as C
    from structsolve.sparseutils import finalize_symmetric_matrix
    if op.get('pen'):
        s.calc_kC()
        f = dict(point='calc_ku_kv_kw_point_pd', x='calc_ku_kv_kw_line_pd_xcte', y='calc_ku_kv_kw_line_pd_ycte')[op['how']]
        from panels.multidomain.connections import penalties as P
        k = [q * v for q, v in zip(op['k'], getattr(P, f)(s))]
    else:
        k = op['k']
    x, y = op['x'] * spec['a'], op['y'] * spec['b']
    size = size or geo(spec).size
    if op['how'] == 'point':
        K = C.fkCpd(k[0], k[1], k[2], s, x, y, size, at, at)
    elif op['how'] == 'x':
        K = C.fkCld_xcte(k[0], k[1], k[2], s, x, size, at, at)
    else:
        K = C.fkCld_ycte(k[0], k[1], k[2], s, y, size, at, at)
    return K, np.asarray(finalize_symmetric_matrix(K).toarray())


def gen_pd(rng):
    k = [rng.choice([0., 0., 1., round(rng.uniform(.1, 9), 2)]) for _ in range(3)]
    if not any(k):
        k[rng.randrange(3)] = 1.
    op = dict(how=rng.choice(['point', 'x', 'y']), x=rng.choice([0., 1., .5, round(rng.random(), 3)]), y=rng.choice([0., 1., .5, round(rng.random(), 3)]),
              k=k, pen=rng.random() < .4)
    if not op['pen']:
        op['k'] = [1e6 * q for q in k]
    return op


def scales(spec):
    """Magnitude of each field, below 1e-12 of which differences are rounding."""
    d, a = amp(spec), min(spec['a'], spec['b'])
    out = dict(u=d, v=d, w=d, phix=d / a, phiy=d / a)
    e = np.array([d / a] * 3 + [d / a ** 2] * 3) * 20
    out.update(zip(R.STRAINS, e))
    # couplings that vanish are differences of what the plies contribute
    ABD, h, _ = lam(spec)
    q = np.array([1.] * 3 + [h / 2.] * 3)
    out.update(zip(R.STRESSES, (np.abs(ABD) + 1e-2 * np.abs(ABD[:3, :3]).max() * np.outer(q, q)) @ e))
    return out


def around(c, pre, post):
    """c as the part of one shell in the vector of a larger system."""
    return np.concatenate((c.mean() + .5 * c.std() * np.cos(np.arange(pre)), c, c.mean() + .5 * c.std() * np.sin(np.arange(post)))) if pre or post else c


def embedding(spec, op, kw):
    pre, post = op.get('embed') or (0, 0)
    if op.get('embed'):
        kw['size'] = '%d' % (pre + post) if op.get('strsize') else geo(spec).size + pre + post
        kw['col0'] = pre
    return pre, post


def own_part(f, spec, op):
    pre, post = op.get('embed') or (0, 0)
    n = geo(spec).size
    f = np.array(f)
    if f.shape != (pre + n + post,) or np.any(f[:pre]) or np.any(f[pre + n:]):
        return np.full(n, np.nan)
    return f[pre:pre + n]


def whole(M, k):
    """What the caller does with a matrix for which it asked the upper half only."""
    from structsolve.sparseutils import finalize_symmetric_matrix, make_skew_symmetric
    return np.asarray((make_skew_symmetric if k == 'kA' else finalize_symmetric_matrix)(M).toarray())


def perform(s, spec, op, get=None):
    """Runs the operation on the library object; dict of arrays as expect()."""
    k = op['op']
    kw = {}
    for q in ('nx', 'ny'):
        if op.get(q):
            kw[q] = op[q]
    nx, ny = op.get('nx') or spec['nx'], op.get('ny') or spec['ny']
    give = Given(op)
    c = op_c(spec, op)
    dense = (lambda M: np.asarray(M.toarray()))
    if k in ('kC', 'kG', 'kT', 'kM', 'kA'):
        emb = op.get('embed')
        pre, post = emb if emb else (0, 0)
        full = c
        if emb:
            kw['size'] = geo(spec).size + pre + post
            if op.get('strsize'):
                kw['size'] = '%d' % (pre + post)
            kw['row0'] = kw['col0'] = pre
            if c is not None:
                full = around(c, pre, post)
        if k in ('kC', 'kG', 'kT') and op.get('var'):
            kw['ABDnxny'] = give(var_ABD(spec, nx, ny, op.get('var')))
        if k in ('kC', 'kG', 'kT') and full is not None:
            kw['c'] = give(full)
        if k in ('kC', 'kG') and op.get('NL') is not None:
            kw['NLgeom'] = bool(op['NL'])
        if k == 'kC' and op.get('ccte') is not None:
            cc = vec(op['ccte'], geo(spec).size, amp(spec))
            kw['c_cte'] = give(around(cc, pre, post) if emb else cc)
        if k == 'kM' and op.get('hvar'):
            _, h, intrho = lam(spec)
            f = 1. + 0.1 * np.cos(np.arange(nx * ny)).reshape(nx, ny)
            kw['h_nxny'], kw['rho_nxny'] = give(h * f), give((intrho / h) * f)
        if k == 'kA':
            kw.pop('nx', None)
            kw.pop('ny', None)
        if op.get('half'):
            kw['finalize'] = False
        M = getattr(s, 'calc_' + k)(**kw)
        if M is None:
            M = s.matrices[k]
        D = whole(M, k) if op.get('half') else dense(M)
        if emb:
            n = geo(spec).size
            out = D[pre:pre + n, pre:pre + n].copy()
            D[pre:pre + n, pre:pre + n] = 0
            if np.any(D):
                return {k: np.full_like(out, np.nan)}
            D = out
        return give.finish({k: D, '_raw': M})
    if k == 'fint':
        if op.get('var'):
            kw['ABDnxny'] = give(var_ABD(spec, nx, ny, op.get('var')))
        f = s.calc_fint(give(around(c, *embedding(spec, op, kw))), **kw)
        return give.finish(dict(fint=own_part(f, spec, op), _raw=f))
    if k == 'fext':
        kw = {}
        embedding(spec, op, kw)
        f = s.calc_fext(inc=op['inc'], **kw)
        return dict(fext=own_part(f, spec, op), _raw=f)
    if k == 'pc':
        d = op['dofs']
        K = s.calc_stiffness_point_constraint(op['x'] * spec['a'], op['y'] * spec['b'], u=d[0], v=d[1], w=d[2], phix=d[3], phiy=d[4],
                                              kuvw=op['ku'], kphi=op['kp'])
        return dict(kPC=np.asarray(K.toarray() if hasattr(K, 'toarray') else K))
    if k == 'pd':
        emb = op.get('embed') or (0, 0)
        n = geo(spec).size
        K, D = pd_penalty(s, spec, op, n + sum(emb), emb[0])
        i = slice(emb[0], emb[0] + n)
        out = D[i, i].copy()
        D[i, i] = 0
        return dict(kCpd=out if not np.any(D) and D.shape[0] == n + sum(emb) else np.full_like(out, np.nan), _raw=K)
    a = {}
    if op.get('pts') is not None:
        a['xs'], a['ys'] = [give(x, True) for x in points(op, spec['a'], spec['b'])]
    else:
        a['gridx'], a['gridy'] = op['gx'], op['gy']
    if k in ('strain', 'stress'):
        a['NLgeom'] = op['NL']
    if k == 'stress' and op.get('var'):
        a['ABD'] = give(var_ABD(spec, nx, ny, op['var']))
    mesh, f = getattr(s, k)(give(c), **a)
    names = dict(uvw=('u', 'v', 'w', 'phix', 'phiy'), strain=R.STRAINS, stress=R.STRESSES)[k]
    out = {q: np.array(f[q]) for q in names}
    out['Xs'], out['Ys'] = np.array(mesh['Xs']), np.array(mesh['Ys'])
    out['_raw'] = [f[q] for q in names]
    return give.finish(out)


def gen_op(rng, spec, kinds=None):
    k = rng.choice(kinds or ['kC', 'kC', 'kG', 'kG', 'kM', 'kA', 'kT', 'fint', 'fext', 'pc', 'pd', 'uvw', 'strain', 'stress'])
    op = dict(op=k)
    if k == 'pd':
        op.update(gen_pd(rng))
    if k in ('kC', 'kG'):
        if rng.random() < .5:
            op['c'] = rng.randrange(10 ** 6)
        if rng.random() < .5:
            op['NL'] = rng.choice([True, False])
        if rng.random() < .25:
            op['var'] = True
        if k == 'kG' and op.get('var') and op.get('c') is None:
            op['c'] = rng.randrange(10 ** 6)
        if k == 'kC' and rng.random() < .15:
            op['ccte'] = rng.randrange(10 ** 6)
    if k in ('kT', 'fint', 'uvw', 'strain', 'stress'):
        op['c'] = rng.randrange(10 ** 6)
    if k == 'kT' and rng.random() < .2:
        op['c'] = None
    if k in ('fint', 'kT', 'stress') and rng.random() < .25:
        op['var'] = True
    if op.get('var') and rng.random() < .3 or k == 'stress' and op.get('var'):
        op['var'] = 'one'
    if k in ('kC', 'kG', 'kT', 'kM', 'kA', 'fint', 'fext', 'pd') and rng.random() < .25:
        op['embed'] = [rng.choice([0, 3, 7]), rng.choice([0, 5])]
        op['strsize'] = rng.random() < .3
    if k == 'kM' and rng.random() < .3:
        op['hvar'] = True
    if k in ('kC', 'kG', 'kT', 'kM', 'kA') and rng.random() < .15:
        op['half'] = True
    if k in ('kC', 'kG', 'kT', 'fint', 'kM') and rng.random() < .5:
        op['nx'], op['ny'] = rng.randint(3, 8), rng.randint(3, 8)
    if k == 'fext':
        op['inc'] = rng.choice([1., .5, .25, 0.])
    if k == 'pc':
        op.update(x=rng.choice([0., 1., .5, .3]), y=rng.choice([0., 1., .5, .7]), dofs=[rng.random() < .6 for _ in range(5)], ku=1e6, kp=1e5)
        if not any(op['dofs']):
            op['dofs'][2] = True
    if k in ('uvw', 'strain', 'stress'):
        if rng.random() < .4:
            op['pts'] = [[round(rng.random(), 3), round(rng.random(), 3)] for _ in range(rng.randint(1, 9))]
        else:
            op['gx'], op['gy'] = rng.randint(1, 7), rng.randint(1, 7)
        op['NL'] = rng.random() < .5
    gen_form(rng, op)
    return op


def gen_form(rng, op):
    if rng.random() < .25:
        op['form'] = rng.choice(['strided', 'fortran', 'reversed', 'list'])


def longer(rng, s):
    """Many terms along one of the directions."""
    k, q = rng.choice([('m', 'nx'), ('n', 'ny')])
    s[k] = rng.choice([rng.randint(4, 12), rng.randint(4, 30)])
    s[q] = max(s[q], s[k] + rng.randint(0, 3))


def long_tol(spec, tol=1e-8):
    """The functions of high order are polynomials with huge coefficients of alternating sign."""
    return tol if max(spec['m'], spec['n']) <= 16 else 1e-5


def long_stol(spec):
    q = max(spec['m'], spec['n'])
    return 1e-12 if q <= 8 else 1e-8 if q <= 16 else 1e-5


TIGHT = float(os.environ.get('PANELS_SIM_TIGHT', '1'))  # to see how far from an alarm the checks are


def mismatch(got, exp, tol=1e-8, dof=True):
    """None, or a description of the first disagreement. Matrices are compared per pair of displacement components, because
    membrane and bending entries differ by many orders of magnitude."""
    atol = exp.get('_atol', 1e-300)
    scales = exp.get('_scales', {})
    tol = max(tol, exp.get('_tol', 0.))
    if got.get('_args'):
        return got['_args']
    for k in sorted(exp):
        if k[0] == '_':
            continue
        e = np.asarray(exp[k], float)
        if k not in got or got[k] is None:
            return '%s: missing' % k
        g = np.asarray(got[k])
        if g.shape != e.shape:
            return '%s: shape %s, expected %s' % (k, g.shape, e.shape)
        if not np.all(np.isfinite(g)):
            return '%s: not finite' % k
        gm = np.abs(e).max() if e.size else 0.
        if e.ndim == 2 and dof and e.shape[0] == e.shape[1] and e.shape[0] % 3 == 0 and k[:2] in ('kC', 'kG', 'kT', 'kM', 'kA'):
            views = [('%s[%s,%s]' % (k, 'uvw'[i], 'uvw'[j]), g[i::3, j::3], e[i::3, j::3]) for i in range(3) for j in range(3)]
        elif k in ('fint', 'fext') and e.size % 3 == 0:
            views = [('%s[%s]' % (k, 'uvw'[i]), g[i::3], e[i::3]) for i in range(3)]
        else:
            views = [(k, g, e)]
        for nm, gv, ev in views:
            m = np.abs(ev).max() if ev.size else 0.
            d = np.abs(gv - ev).max() if ev.size else 0.
            if not d * TIGHT <= tol * m + max(1e-12, exp.get('_stol', 0.) * 1e-2) * gm + atol + exp.get('_stol', 1e-12) * scales.get(k, 0.):
                i = np.unravel_index(np.argmax(np.abs(gv - ev)), ev.shape)
                return '%s: %r at %s, expected %r (max %.3g)' % (nm, float(gv[i]), tuple(int(q) for q in i), float(ev[i]), m)
    return None


def kappa_probe():
    """Which factor the tree uses for w,x*w,y in gxy (see known_findings.json); sets the reference accordingly. 1, 2, or None."""
    spec = dict(a=1., b=1., r=None, m=2, n=2, bc={k: 1. for k in BC}, x1=-1, x2=1, y1=-1, y2=1)
    from panels import Shell
    s = Shell(a=1., b=1., m=2, n=2, model='plate_clpt_donnell_bardell', **spec['bc'])
    s.out_num_cores = 1
    c = vec(3, 12, .3)
    X = np.array([.3])
    s.strain(c, xs=X, ys=X, NLgeom=True)
    got = float(np.ravel(s.fields['gxy'])[0])
    g = geo(spec)
    out = None
    for k in (1., 2.):
        R.KAPPA = k
        e = R.strain(g, c, X, X, 1)['gxy'][0]
        if abs(got - e) <= 1e-9 * max(1., abs(e)):
            out = k
            break
    R.KAPPA = out or 1.
    return out


# ------------------------------------------------------------------ assemblies
def gen_md(rng, npan=(2, 3), mn=(2, 3), **over):
    """Panels in a row along x or y joined edge to edge, optionally with a blade (base-flange) or a doubler (face to face)."""
    ax = rng.choice('xy')
    cyl = rng.random() < .3
    k = rng.randint(*npan)
    base = gen_shell(rng, mn, x1=-1, x2=1, y1=-1, y2=1, loads=[])
    if not cyl:
        base['r'] = rng.choice([None, 0.])
    elif not base['r']:
        base['r'] = base['a'] * 3
    panels, conn = [], []
    off = 0.
    for i in range(k):
        p = dict(base)
        p['stack'] = gen_stack(rng)
        p['laminaprop'] = rng.choice(PROPS)
        p['m'], p['n'] = rng.randint(*mn), rng.randint(*mn)
        p['nx'], p['ny'] = rng.randint(mn[1] + 1, mn[1] + 3), rng.randint(mn[1] + 1, mn[1] + 3)
        p['bc'] = gen_bc(rng, .6)
        p['group'] = rng.choice(['g', 'g', 'h'])
        p['name'] = 'p%d' % i
        if ax == 'x':
            p['a'] = base['a'] * rng.choice([.5, 1.])
        else:
            p['b'] = base['b'] * rng.choice([.5, 1.])
        p['x0'], p['y0'] = (off, 0.) if ax == 'x' else (0., off)
        off += p['a'] if ax == 'x' else p['b']
        p['loads'] = [gen_load(rng) for _ in range(rng.randint(0, 2))]
        p['N'] = [round(rng.uniform(-50, 50), 3) for _ in range(3)] if rng.random() < .4 else [0., 0., 0.]
        panels.append(p)
        if i:
            i1, i2 = (i - 1, i) if rng.random() < .6 else (i, i - 1)
            e = ('a' if ax == 'x' else 'b')
            at = {i - 1: e, i: '0'}
            conn.append(dict(func='SS%scte' % ax, p1=i1, p2=i2, c1=at[i1], c2=at[i2]))
    if rng.random() < .4:
        q = dict(panels[0], name='fl', group='h', r=None, m=rng.randint(*mn), n=rng.randint(*mn), bc=gen_bc(rng, .6), loads=[], x0=0., y0=0.)
        if ax == 'x':
            q['b'] = panels[0]['b']
            q['a'] = base['a'] * .3
            conn.append(dict(func='BFxcte', p1=0, p2=len(panels), c1='half', c2='0'))
        else:
            q['b'] = base['b'] * .3
            conn.append(dict(func='BFycte', p1=0, p2=len(panels), c1='half', c2='0'))
        panels.append(q)
    if rng.random() < .4:
        q = dict(panels[0], name='db', group='g', m=rng.randint(*mn), n=rng.randint(*mn), bc=gen_bc(rng, .6), stack=gen_stack(rng), loads=[])
        d = dict(func=rng.choice(['SB', 'SB', 'SB_TSL']), p1=0, p2=len(panels))
        if d['func'] == 'SB_TSL':
            d['tsl_type'] = 'linear'
        conn.append(d)
        panels.append(q)
    for p in panels:
        p['cores'] = 1
    md = dict(ax=ax, panels=panels, conn=conn, cores=rng.choice([1, 2, 3, 4, 6]), order=list(range(len(panels))))
    md.update(over)
    return md


def cval(p, code, axis):
    L = p['a'] if axis == 'x' else p['b']
    return {'0': 0., 'a': L, 'b': L, 'half': L / 2.}[code]


def make_conn(spec, objs, which=None):
    out = []
    for c in (spec['conn'] if which is None else [spec['conn'][i] for i in which]):
        d = dict(func=c['func'], p1=objs[c['p1']], p2=objs[c['p2']])
        ax = 'x' if 'xcte' in c['func'] else 'y'
        if 'c1' in c:
            d['%scte1' % ax] = cval(spec['panels'][c['p1']], c['c1'], ax)
            d['%scte2' % ax] = cval(spec['panels'][c['p2']], c['c2'], ax)
        if 'tsl_type' in c:
            d['tsl_type'] = c['tsl_type']
        out.append(d)
    return out


def make_md(spec):
    from panels.multidomain import MultiDomain
    objs = []
    for p in spec['panels']:
        s = make_shell({k: v for k, v in p.items() if k not in ('x0', 'y0')})
        s.x0, s.y0 = p.get('x0', 0.), p.get('y0', 0.)
        objs.append(s)
    md = MultiDomain([objs[i] for i in spec['order']], make_conn(spec, objs))
    md.out_num_cores = spec['cores']
    return md, objs


def md_layout(spec):
    pos, off = {}, 0
    for i in spec['order']:
        p = spec['panels'][i]
        pos[i] = (off, off + 3 * p['m'] * p['n'])
        off = pos[i][1]
    return pos, off


def md_c(spec, op):
    pos, size = md_layout(spec)
    if op.get('c') is None:
        return None
    return vec(op['c'], size, amp(spec['panels'][0]))


def conn_scale(spec, conn=None):
    """Smallest of the penalty stiffnesses times the length over which they act."""
    out = []
    for c in (spec['conn'] if conn is None else conn):
        pi, pj = spec['panels'][c['p1']], spec['panels'][c['p2']]
        (Li, hi, _), (Lj, hj, _) = lam(dict(pi, ortho=False)), lam(dict(pj, ortho=False))
        f = c['func']
        if f == 'SB_TSL':
            out.append(1e4)
        elif f == 'SB':
            out.append(R.penalties(hi, hj, Li, Lj, 'sb', pi['a'], pi['b'])[0] * pi['a'] * pi['b'])
        else:
            x = 'xcte' in f
            out.append(R.penalties(hi, hj, Li, Lj, 'x' if x else 'y')[0] * (pi['b'] if x else pi['a']))
    return min(out) if out else 0.


def conn_ref(spec, conn=None):
    pos, size = md_layout(spec)
    K = np.zeros((size, size))
    for c in (spec['conn'] if conn is None else conn):
        i, j = c['p1'], c['p2']
        c1, c2 = c.get('c1'), c.get('c2')
        if pos[i][0] > pos[j][0]:
            i, j, c1, c2 = j, i, c2, c1
        pi, pj = spec['panels'][i], spec['panels'][j]
        gi, gj = geo(pi), geo(pj)
        Li, hi, _ = lam(dict(pi, ortho=False))
        Lj, hj, _ = lam(dict(pj, ortho=False))
        f = c['func']
        if f in ('SB', 'SB_TSL'):
            if f == 'SB':
                kt, _ = R.penalties(hi, hj, Li, Lj, 'sb', pi['a'], pi['b'])
            else:
                kt = 1e4 / (pi['a'] * pi['b'])
            B = R.conn_sb(gi, gj, hi / 2. + hj / 2., kt)
        elif 'xcte' in f:
            kt, kr = R.penalties(hi, hj, Li, Lj, 'x')
            B = R.conn_xcte(gi, gj, cval(pi, c1, 'x'), cval(pj, c2, 'x'), kt, kr, fr=f.startswith('BF'))
        else:
            kt, kr = R.penalties(hi, hj, Li, Lj, 'y')
            B = R.conn_ycte(gi, gj, cval(pi, c1, 'y'), cval(pj, c2, 'y'), kt, kr, fr=f.startswith('BF'))
        si, sj = slice(*pos[i]), slice(*pos[j])
        K[si, si] += B['AA']
        K[si, sj] += B['AB']
        K[sj, si] += B['AB'].T
        K[sj, sj] += B['BB']
    return K


def expect_md(spec, op):
    e = _expect_md(spec, op)
    e['_tol'] = max(long_tol(spec['panels'][i]) for i in spec['order'])
    e['_stol'] = max(long_stol(spec['panels'][i]) for i in spec['order'])
    return e


def _expect_md(spec, op):
    pos, size = md_layout(spec)
    k = op['op']
    c = md_c(spec, op)
    if k in ('kC', 'kG', 'kM', 'kT'):
        K = np.zeros((size, size))
        atol = 0.
        for i in spec['order']:
            p = spec['panels'][i]
            s = slice(*pos[i])
            e = expect_c(p, dict(op=k, NL=op.get('NL') if k in ('kC', 'kG') else None), None if c is None else c[s])
            K[s, s] = e[k]
            atol = max(atol, e.get('_atol', 0.))
        sub = None if op.get('conn') is None else [spec['conn'][i] for i in op['conn']]
        if k in ('kC', 'kT'):
            K = K + conn_ref(spec, sub)
        return {k: K, '_atol': atol}
    if k == 'pd':
        i = spec['order'][op['panel'] % len(spec['order'])]
        e = expect_pd(spec['panels'][i], op)
        K = np.zeros((size, size))
        K[slice(*pos[i]), slice(*pos[i])] = e['kCpd']
        return dict(kCpd=K, _atol=e['_atol'])
    if k == 'conn':
        conn = None if op.get('conn') is None else [spec['conn'][i] for i in op['conn']]
        #NOTE edges that are held make a connection vanish but for the rounding of the functions at the edge
        return dict(kC_conn=conn_ref(spec, conn), _atol=max(long_stol(spec['panels'][i]) for i in spec['order']) * conn_scale(spec, conn))
    if k in ('fint', 'fext'):
        f = np.zeros(size)
        atol = 0.
        for i in spec['order']:
            s = slice(*pos[i])
            e = expect_c(spec['panels'][i], dict(op), None if c is None else c[s])
            f[s] = e[k]
            atol = max(atol, e.get('_atol', 0.))
        if k == 'fint':
            f = f + conn_ref(spec) @ c
        return {k: f, '_atol': atol}
    out = {}
    sc = {}
    q = 0
    p0 = [p for p in spec['panels'] if p['group'] == op['group']][0]
    op = dict(op, p0=[p0['a'], p0['b']])
    for i in spec['order']:
        p = spec['panels'][i]
        if p['group'] != op['group']:
            continue
        e = expect_c(p, md_fieldop(op, p), c[slice(*pos[i])])
        for n, v in e.items():
            if n[0] != '_':
                out['%s%d' % (dict(Xs='x', Ys='y').get(n, n), q)] = v
                sc['%s%d' % (n, q)] = e['_scales'].get(n, 0.)
        q += 1
    out['_scales'] = sc
    return out


def md_fieldop(op, p):
    o = dict(op=op['op'].split('_')[0], NL=op.get('NL'), gx=op.get('gx'), gy=op.get('gy'))
    if '_gauss' in op['op']:
        o['xg'] = op.get('xg') if op.get('xg') is None else [t * op['p0'][0] / p['a'] for t in op['xg']]
        o['yg'] = op.get('yg') if op.get('yg') is None else [t * op['p0'][1] / p['b'] for t in op['yg']]
        o['gauss'] = True
    return o


def expect_c(p, op, c):
    """As expect(), with the vector given."""
    if op.get('gauss'):
        X = np.array(op['xg']) * p['a'] if op['xg'] is not None else np.linspace(0, p['a'], 50)
        Y = np.array(op['yg']) * p['b'] if op['yg'] is not None else np.linspace(0, p['b'], 50)
        xs, ys = np.meshgrid(X, Y)
        op = dict(op, pts=np.stack([xs.ravel() / p['a'], ys.ravel() / p['b']], 1).tolist())
        e = _with_c(p, op, c)
        return {n: (v if n[0] == '_' else v.reshape(xs.shape)) for n, v in e.items()}
    return _with_c(p, op, c)


_C = [None]


def _with_c(p, op, c):
    global op_c
    keep = op_c
    op_c = lambda spec, o, size=None: c
    try:
        return expect(p, op)
    finally:
        op_c = keep


def perform_md(md, spec, op, objs=None):
    k = op['op']
    give = Given(op)
    c = give(md_c(spec, op))
    if k in ('kC', 'kG', 'kT'):
        kw = {}
        if op.get('conn') is not None:
            kw['conn'] = make_conn(spec, objs, op['conn'])
        if op.get('NL') is not None and k != 'kT':
            kw['NLgeom'] = bool(op['NL'])
        if op.get('half'):
            kw['finalize'] = False
        M = getattr(md, 'calc_' + k)(c=c, silent=True, **kw)
        return give.finish({k: whole(M, k) if op.get('half') else np.asarray(M.toarray()), '_raw': M})
    if k == 'kM':
        M = md.calc_kM(silent=True, **(dict(finalize=False) if op.get('half') else {}))
        return give.finish({k: whole(M, k) if op.get('half') else np.asarray(M.toarray()), '_raw': M})
    if k == 'conn':
        M = md.get_kC_conn() if op.get('conn') is None else md.get_kC_conn(conn=make_conn(spec, objs, op['conn']))
        return dict(kC_conn=np.asarray(M.toarray()) if hasattr(M, 'toarray') else M, _raw=M)
    if k == 'pd':
        i = spec['order'][op['panel'] % len(spec['order'])]
        p = md.panels[op['panel'] % len(spec['order'])]
        md.calc_kC(silent=True)  # this is what tells the panels their position
        if p.row_start != p.col_start:
            return dict(kCpd=None)
        M, D = pd_penalty(p, spec['panels'][i], op, md.get_size(), p.row_start)
        return dict(kCpd=D, _raw=M)
    if k == 'fint':
        f = md.calc_fint(c, silent=True)
        return give.finish(dict(fint=np.array(f), _raw=f))
    if k == 'fext':
        f = md.calc_fext(inc=op['inc'], silent=True)
        return give.finish(dict(fext=np.array(f), _raw=f))
    kw = {}
    if '_gauss' in k:
        p0 = [p for p in spec['panels'] if p['group'] == op['group']][0]
        kw['x_gauss'] = None if op['xg'] is None else give(np.array(op['xg']) * p0['a'], True)
        kw['y_gauss'] = None if op['yg'] is None else give(np.array(op['yg']) * p0['b'], True)
        fn = getattr(md, k + '_points')
    else:
        kw['gridx'], kw['gridy'] = op['gx'], op['gy']
        fn = getattr(md, k)
    if not k.startswith('uvw'):
        kw['NLterms'] = bool(op['NL'])
    r = fn(c, op['group'], **kw)
    out = {}
    for n, L in r.items():
        for q, v in enumerate(L):
            out['%s%d' % (n, q)] = np.array(v)
    out['_raw'] = [v for L in r.values() for v in L]
    return give.finish(out)


def inside(spec, op):
    """Functions of high order explode outside the panel."""
    ps = [p for p in spec['panels'] if p['group'] == op['group']]
    if max(max(p['m'], p['n']) for p in ps) > 6:
        for g, a in (('xg', 'a'), ('yg', 'b')):
            k = min(p[a] for p in ps) / ps[0][a]
            op[g] = [round(t * min(1., k), 3) for t in op[g]]


def gen_md_op(rng, spec, kinds=None):
    k = rng.choice(kinds or ['kC', 'kG', 'kM', 'kT', 'conn', 'fint', 'fext', 'pd', 'uvw', 'strain', 'stress', 'uvw_gauss', 'strain_gauss', 'stress_gauss'])
    op = dict(op=k)
    if k == 'pd':
        op.update(gen_pd(rng), panel=rng.randrange(len(spec['order'])))
    if k in ('kC', 'kG') and rng.random() < .5 or k in ('kT', 'fint') or k[:3] in ('uvw', 'str'):
        op['c'] = rng.randrange(10 ** 6)
    if k in ('kC', 'kG') and rng.random() < .4:
        op['NL'] = rng.random() < .6
    if k in ('kC', 'kG', 'kT', 'kM') and rng.random() < .15:
        op['half'] = True
    if k == 'fext':
        op['inc'] = rng.choice([1., .5, 0.])
    if k[:3] in ('uvw', 'str'):
        op['group'] = rng.choice([p['group'] for p in spec['panels']])
        op['NL'] = rng.random() < .5
        if '_gauss' in k:
            # the same numbers are used for every panel of the group, whatever its dimensions
            op['xg'] = sorted(round(rng.random(), 3) for _ in range(rng.randint(1, 4)))
            op['yg'] = sorted(round(rng.random(), 3) for _ in range(rng.randint(1, 4)))
            inside(spec, op)
            r = rng.random()
            if r < .2:
                op['xg'] = None
            elif r < .4:
                op['yg'] = None
        else:
            op['gx'], op['gy'] = rng.randint(1, 6), rng.randint(1, 6)
    gen_form(rng, op)
    return op
