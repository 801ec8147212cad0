"""JSON descriptions of stiffened bays, the objects built from them, and what the reference expects of each operation."""
import numpy as np

from . import models as M
from . import refmodel as R

FLANGE_BC = {k: (1. if k in ('x1wr', 'x2wr') or (k[0] == 'y' and (not k.endswith('r') or k[2] == 'w')) else 0.) for k in M.BC}
BAY_BC = {k: (1. if k in ('x1wr', 'x2wr', 'y1wr', 'y2wr') else 0.) for k in M.BC}


def gen_bay(rng, mn=(2, 4), **over):
    a = rng.choice([250., 1000., 0.8])
    b = a * rng.choice([0.5, 1.])
    s = dict(a=a, b=b, r=rng.choice([None, None, 0., a * 4]), m=rng.randint(*mn), n=rng.randint(*mn), stack=M.gen_stack(rng), plyt=a * 1e-3,
             laminaprop=rng.choice(M.PROPS), rho=rng.choice([1.6e-9, 2.7e-9]), flow=rng.choice('xy'), beta=None, gamma=None, Mach=None,
             rho_air=None, V=None, speed_sound=340., cores=rng.choice([1, 2, 3, 4]), name='bay', bc=dict(BAY_BC), forces_skin=[])
    for k in s['bc']:
        if rng.random() < .25:
            s['bc'][k] = float(rng.choice([0, 1]))
    s.update(gen_flow(rng))
    cuts = sorted(rng.sample([.25, .5, .75], rng.randint(1, 2)))
    edges = [0.] + [round(c * b, 9) for c in cuts] + [b]
    s['panels'] = []
    for y1, y2 in zip(edges[:-1], edges[1:]):
        p = dict(y1=y1, y2=y2, stack=None, plyt=None, rho=None, N=[round(rng.uniform(-50, 50), 3) for _ in range(3)] if rng.random() < .6 else [0.] * 3)
        if rng.random() < .4:
            p['stack'] = M.gen_stack(rng)
        if rng.random() < .3:
            p['plyt'] = a * 2e-3
        if rng.random() < .3:
            p['rho'] = 2e-9
        k = len(p['stack'] or s['stack'])
        if rng.random() < .2:
            p['laminaprop'] = rng.choice(M.PROPS)
        if rng.random() < .15:
            p['laminaprops'] = [rng.choice(M.PROPS) for _ in range(k)]
        if rng.random() < .15:
            p['plyts'] = [a * rng.choice([1e-3, 1.5e-3]) for _ in range(k)]
        s['panels'].append(p)
    s['stiffs'] = [gen_stiff(rng, s, e) for e in edges[1:-1] if rng.random() < .8]
    for _ in range(rng.randint(0, 2)):
        s['forces_skin'].append(gen_force(rng, a, b))
    s.update(over)
    return s


def gen_flow(rng):
    if rng.random() < .5:
        return dict(beta=rng.uniform(.1, 2.), gamma=rng.choice([None, .3]), Mach=None, rho_air=None, V=None)
    return dict(beta=None, gamma=None, Mach=rng.choice([1., 1.5, 2., 3.]), rho_air=.3e-3, V=rng.choice([300., 700.]))


def gen_force(rng, a, b):
    return [round(rng.random(), 3) * a, round(rng.random(), 3) * b] + [round(rng.uniform(-3, 3), 3) for _ in range(3)]


def gen_stiff(rng, s, ys):
    a, b = s['a'], s['b']
    st = dict(kind=rng.choice(['1d', '2d', '2d']), ys=ys, rho=rng.choice([None, 3e-9]), bb=None, bstack=None, bplyt=None, bf=a * rng.choice([.02, .05]),
              fstack=M.gen_stack(rng), fplyt=a * 1e-3, prop=rng.choice(M.PROPS), Fx=None, mf=rng.randint(2, 4), nf=rng.randint(2, 4), N=[0.] * 3, forces=[])
    if rng.random() < .6:
        st.update(bb=b * .1, bstack=M.gen_stack(rng), bplyt=a * 5e-4)
    if st['bstack'] and rng.random() < .2:
        st['fstack'] = None
    for w in 'bf':
        if st[w + 'stack'] and rng.random() < .2:
            st[w + 'plyts'] = [a * rng.choice([5e-4, 1e-3, 2e-3]) for _ in st[w + 'stack']]
        if st[w + 'stack'] and rng.random() < .2:
            st[w + 'props'] = [rng.choice(M.PROPS) for _ in st[w + 'stack']]
    if st['kind'] == '1d':
        st['Fx'] = rng.choice([None, -20., 35.])
    elif st['fstack']:
        if rng.random() < .5:
            st['N'] = [round(rng.uniform(-50, 50), 3)] + [round(rng.uniform(-50, 50), 3) if rng.random() < .4 else 0. for _ in range(2)]
        if rng.random() < .4:
            st['fbc'] = gen_fbc(rng, FLANGE_BC)
        st['forces'] = [gen_force(rng, a, st['bf']) for _ in range(rng.randint(0, 2))]
    return st


def gen_fbc(rng, bc):
    return dict(bc, **{q: 1. - bc[q] for q in rng.sample(M.BC, rng.randint(1, 6))})


FLOW = ('flow', 'beta', 'gamma', 'Mach', 'rho_air', 'V', 'speed_sound')


def make_bay(spec, stiffs=True):
    from panels.stiffpanelbay import StiffPanelBay
    s = StiffPanelBay()
    for k in ('a', 'b', 'r', 'm', 'n', 'plyt', 'rho', 'name') + FLOW:
        setattr(s, k, spec[k])
    s.stack = list(spec['stack'])
    s.laminaprop = tuple(spec['laminaprop'])
    s.out_num_cores = spec['cores']
    for k, v in spec['bc'].items():
        if v != BAY_BC[k]:
            setattr(s, k, v)
    s.model = 'cylshell_clpt_donnell_bardell' if spec['r'] else 'plate_clpt_donnell_bardell'
    for p in spec['panels']:
        kw = {}
        if p['stack'] is not None:
            kw['stack'] = list(p['stack'])
        if p['plyt'] is not None:
            kw['plyt'] = p['plyt']
        if p['rho'] is not None:
            kw['rho'] = p['rho']
        for k in ('laminaprop', 'laminaprops', 'plyts'):
            if p.get(k) is not None:
                kw[k] = M.tolib(k, p[k])
        s.add_panel(p['y1'], p['y2'], Nxx=p['N'][0], Nyy=p['N'][1], Nxy=p['N'][2], **kw)
    s.forces_skin = [list(f) for f in spec['forces_skin']]
    if stiffs:
        for st in spec['stiffs']:
            add_stiff(s, spec, st)
    return s


def add_stiff(s, spec, st):
    kw = dict(rho=st['rho'], bb=st['bb'], bf=st['bf'])
    for w in 'bf':
        if st[w + 'stack']:
            kw.update({w + 'stack': list(st[w + 'stack'])})
            if st.get(w + 'plyts'):
                kw[w + 'plyts'] = list(st[w + 'plyts'])
            else:
                kw[w + 'plyt'] = st[w + 'plyt']
            if st.get(w + 'props'):
                kw[w + 'laminaprops'] = [tuple(q) for q in st[w + 'props']]
            else:
                kw[w + 'laminaprop'] = tuple(st['prop'])
    if st['kind'] == '1d':
        o = s.add_bladestiff1d(st['ys'], **kw)
        o.Fx = st['Fx']
    else:
        o = s.add_bladestiff2d(st['ys'], mf=st['mf'], nf=st['nf'], **kw)
        if st['fstack']:
            o.flange.Nxx, o.flange.Nyy, o.flange.Nxy = st['N']
            for q, x in (st.get('fbc') or {}).items():
                setattr(o.flange, q, x)
        o.forces_flange = [list(f) for f in st['forces']]
        for w, part in (('b', o.base), ('f', o.flange)):
            if st.get(w + 'rho'):
                part.rho = st[w + 'rho']
    return o


# ------------------------------------------------------------------ reference side
def pspec(spec, p):
    """The shell a skin panel is."""
    return dict(a=spec['a'], b=spec['b'], r=spec['r'], m=spec['m'], n=spec['n'], bc=spec['bc'], x1=-1, x2=1, y1=p['y1'], y2=p['y2'],
                stack=p['stack'] or spec['stack'], plyt=p['plyt'] or spec['plyt'], plyts=p.get('plyts'),
                laminaprop=p.get('laminaprop') or spec['laminaprop'], laminaprops=p.get('laminaprops'), rho=p['rho'] or spec['rho'], rhos=None, offset=0., ortho=False, N=p['N'], Ncte=[0., 0., 0.], nx=2 * spec['m'], ny=2 * spec['n'])


def skin_h(spec, st):
    """Mean thickness of the skin at both sides of the stiffener."""
    hs = []
    for p in spec['panels']:
        if p['y2'] == st['ys'] or p['y1'] == st['ys']:
            q = pspec(spec, p)
            hs.append(sum(q['plyts'] or [q['plyt']] * len(q['stack'])))
    return .5 * sum(hs)


def panel1(spec, st):
    return [p for p in spec['panels'] if p['y2'] == st['ys']][-1]


def plyts(st, w):
    return st.get(w + 'plyts') or [st[w + 'plyt']] * len(st[w + 'stack'])


def props(st, w):
    return st.get(w + 'props') or [st['prop']] * len(st[w + 'stack'])


def bspec(spec, st):
    h, hb = skin_h(spec, st), sum(plyts(st, 'b'))
    q = pspec(spec, dict(y1=st['ys'] - st['bb'] / 2., y2=st['ys'] + st['bb'] / 2., stack=st['bstack'], plyt=st['bplyt'], rho=st.get('brho') or st['rho'], N=[0.] * 3))
    q.update(plyts=plyts(st, 'b'), laminaprops=props(st, 'b'), offset=-h / 2. - hb / 2.)
    return q


def fspec(spec, st):
    return dict(a=spec['a'], b=st['bf'], r=None, m=st['mf'], n=st['nf'], bc=st.get('fbc') or FLANGE_BC, x1=-1, x2=1, y1=-1, y2=1, stack=st['fstack'], plyt=st['fplyt'],
                plyts=plyts(st, 'f'), laminaprop=st['prop'], laminaprops=props(st, 'f'), rho=st.get('frho') or st['rho'] or spec['rho'], rhos=None, offset=0., ortho=False, N=st['N'],
                Ncte=[0.] * 3, nx=2 * st['mf'], ny=2 * st['nf'])


def flange2d(spec):
    return [st for st in spec['stiffs'] if st['kind'] == '2d' and st['fstack']]


def layout(spec):
    n0 = 3 * spec['m'] * spec['n']
    pos, off = [], n0
    for st in flange2d(spec):
        pos.append((off, off + 3 * st['mf'] * st['nf']))
        off = pos[-1][1]
    return n0, pos, off


def line(g, ys, npts=None):
    p, w = np.polynomial.legendre.leggauss(npts or g.m + 4)
    return p, np.full(len(p), 2. * ys / g.b - 1.), w * g.a / 2.


def flange1d_props(spec, st):
    h = skin_h(spec, st)
    hb = sum(plyts(st, 'b')) if st['bstack'] else 0.
    fp, fm = plyts(st, 'f'), props(st, 'f')
    hf, bf = sum(fp), st['bf']
    df = bf / 2. + hb + h / 2.
    E1 = S1 = 0.
    y = 0.
    for th, t, prop in zip(st['fstack'], fp, fm):
        ABD, _, _ = R.laminate([th], [1.], [prop], [0.])
        Q = ABD[:3, :3]
        y += t / 2.
        E1 += t * (Q[0, 0] - Q[0, 1] ** 2 / Q[1, 1])
        S1 += -y * t * (Q[0, 2] - Q[0, 1] * Q[0, 2] / Q[1, 1])
        y += t / 2.
    return h, hf, df, E1, S1, bf ** 2 / 12. * E1, hf * bf ** 3 / 12. + bf * hf ** 3 / 12.


def stiff1d(spec, st, k):
    g = M.geo(pspec(spec, spec['panels'][0]))
    xi, eta, W = line(g, st['ys'])
    h, hf, df, E1, S1, F1, J = flange1d_props(spec, st)
    bf = st['bf']
    S = g.S
    sym = lambda A, B, q: (lambda X: X + X.T)(A.T @ ((q * W)[:, None] * B))
    one = lambda A, q: A.T @ ((q * W)[:, None] * A)
    if k == 'kC':
        ux, wxx, wxy = S('u', xi, eta, 1, 0), S('w', xi, eta, 2, 0), S('w', xi, eta, 1, 1)
        return bf * (one(ux, E1) + sym(ux, wxx, E1 * df) - sym(ux, wxy, S1) + one(wxx, E1 * df ** 2 + F1) + one(wxy, J) - sym(wxy, wxx, S1 * df))
    if k == 'kG':
        return one(S('w', xi, eta, 1, 0), st['Fx'] or 0.)
    rho = st['rho'] or spec['rho']
    q = rho * hf * bf
    U, V, Wm, wx, wy = S('u', xi, eta), S('v', xi, eta), S('w', xi, eta), S('w', xi, eta, 1, 0), S('w', xi, eta, 0, 1)
    I = q * (4 * bf ** 2 + 6 * bf * h + 3 * h ** 2) / 12.
    return one(U, q) + one(V, q) + one(Wm, q) + sym(U, wx, 2 * q * df) + sym(V, wy, 2 * q * df) + one(wx, I) + one(wy, I)


def expect_bay(spec, op):
    e = _expect_bay(spec, op)
    e['_tol'], e['_stol'] = M.long_tol(spec), M.long_stol(spec)
    return e


def _expect_bay(spec, op):
    n0, pos, size = layout(spec)
    k = op['op']
    sk = slice(0, n0)
    if k in ('kC', 'kG', 'kM'):
        K = np.zeros((size, size))
        c = bay_c(spec, op)
        atol = 0.
        for p in spec['panels']:
            q = pspec(spec, p)
            e = M.expect_c(q, dict(op=k, NL=None), None if c is None else c[sk])
            K[sk, sk] += e[k]
            atol = max(atol, e.get('_atol', 0.))
        fi = 0
        for st in spec['stiffs']:
            if st['bstack'] and k != 'kG':
                K[sk, sk] += M.expect_c(bspec(spec, st), dict(op=k, NL=None), None)[k]
            if not st['fstack']:
                continue
            if st['kind'] == '1d':
                K[sk, sk] += stiff1d(spec, st, k)
                continue
            f = slice(*pos[fi])
            fi += 1
            fs = fspec(spec, st)
            K[f, f] += M.expect_c(fs, dict(op=k, NL=None), None)[k]
            if k == 'kC':
                b = bspec(spec, st) if st['bstack'] else pspec(spec, panel1(spec, st))
                (La, ha, _), (Lb, hb, _) = M.lam(b), M.lam(fs)
                kt, kr = R.penalties(ha, hb, La, Lb, 'y')
                g = M.geo(dict(pspec(spec, spec['panels'][0]), y1=-1, y2=1))
                B = R.conn_ycte(g, M.geo(fs), st['ys'], 0., kt, kr, fr=True)
                K[sk, sk] += B['AA']
                K[sk, f] += B['AB']
                K[f, sk] += B['AB'].T
                K[f, f] += B['BB']
        return {k: K, '_atol': atol}
    if k == 'kA':
        p = dict(pspec(spec, spec['panels'][0]), flow=spec['flow'])
        p.update({q: spec[q] for q in ('beta', 'gamma', 'Mach', 'rho_air', 'V')})
        e = M.expect_c(p, dict(op='kA'), None)
        K = np.zeros((size, size))
        K[sk, sk] = e['kA']
        return dict(kA=K, _atol=e['_atol'])
    if k == 'fext':
        f = np.zeros(size)
        g = M.geo(pspec(spec, spec['panels'][0]))
        for x, y, fx, fy, fz in spec['forces_skin']:
            f[sk] += np.array([fx, fy, fz, 0, 0]) @ R.gpoint(g, x, y)
        for st, (i, j) in zip(flange2d(spec), pos):
            gf = M.geo(fspec(spec, st))
            for x, y, fx, fy, fz in st['forces']:
                f[i:j] += np.array([fx, fy, fz, 0, 0]) @ R.gpoint(gf, x, y)
        tot = sum(abs(v) for l in [spec['forces_skin']] + [st['forces'] for st in flange2d(spec)] for q in l for v in q[2:])
        return dict(fext=f, _atol=tot * 1e-14)
    c = bay_c(spec, op)
    if k == 'skin':
        q, cc = dict(pspec(spec, spec['panels'][0])), c[sk]
    else:
        q = fspec(spec, flange2d(spec)[op['fi']])
        cc = c[slice(*pos[op['fi']])]
    return M.expect_c(q, dict(op, op='uvw'), cc)


def bay_c(spec, op):
    if op.get('c') is None:
        return None
    return M.vec(op['c'], layout(spec)[2], spec['a'] * 5e-3)


def perform_bay(bay, spec, op):
    k = op['op']
    give = M.Given(op)
    if k in ('kC', 'kG', 'kM', 'kA'):
        kw = dict(silent=True)
        if k == 'kG':
            kw['c'] = give(bay_c(spec, op))
        X = getattr(bay, 'calc_' + k)(**kw)
        if X is None:
            X = getattr(bay, k)
        return give.finish({k: np.asarray(X.toarray()), '_raw': X})
    if k == 'fext':
        f = bay.calc_fext(silent=True)
        return dict(fext=np.array(f), _raw=f)
    c = give(bay_c(spec, op))
    b = spec['b'] if k == 'skin' else flange2d(spec)[op['fi']]['bf']
    a = {}
    if op.get('pts') is not None:
        a['xs'], a['ys'] = [give(x, True) for x in M.points(op, spec['a'], b)]
    else:
        a['gridx'], a['gridy'] = op['gx'], op['gy']
    if k == 'skin':
        r = bay.uvw_skin(c, **a)
    else:
        st = flange2d(spec)[op['fi']]
        r = bay.uvw_stiffener(c, spec['stiffs'].index(st) - (len(spec['stiffs']) if op.get('back') else 0), region='flange', **a)
    out = {n: np.array(v) for n, v in zip(('u', 'v', 'w', 'phix', 'phiy'), r)}
    out['Xs'], out['Ys'] = np.array(bay.Xs), np.array(bay.Ys)
    out['_raw'] = list(r)
    return give.finish(out)


def gen_bay_op(rng, spec, kinds=None):
    fl = flange2d(spec)
    k = rng.choice(kinds or ['kC', 'kC', 'kG', 'kM', 'kA', 'fext', 'skin', 'stiff'])
    if k == 'stiff' and not fl:
        k = 'skin'
    op = dict(op=k)
    if k == 'kG' and rng.random() < .4 and not any(s['kind'] == '1d' for s in spec['stiffs']):
        op['c'] = rng.randrange(10 ** 6)
    if k in ('skin', 'stiff'):
        op['c'] = rng.randrange(10 ** 6)
        if k == 'stiff':
            op['fi'] = rng.randrange(len(fl))
            op['back'] = rng.random() < .3
        if rng.random() < .4:
            op['pts'] = [[round(rng.random(), 3), round(rng.random(), 3)] for _ in range(rng.randint(1, 9))]
        else:
            op['gx'], op['gy'] = rng.randint(1, 7), rng.randint(1, 7)
    M.gen_form(rng, op)
    return op
