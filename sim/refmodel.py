"""Small executable reference: what the library is supposed to compute, written independently with dense NumPy.

Displacements are u, v, w = sum c_k f_i(xi) g_j(eta) with Bardell's functions, k = 3*(j*m + i) + (0, 1, 2), on the
flat or cylindrical (Donnell) panel; every matrix and vector is a Gauss-Legendre quadrature of the defining integral.
Nothing here imports the library.
"""
import math

import numpy as np
from numpy.polynomial import polynomial as Po

# factor of w,x*w,y in gxy; the von Karman relation has 1, see known_findings.json
KAPPA = 1.
_BASIS = {}


def _fact2(n):
    r = 1
    while n > 1:
        r *= n
        n -= 2
    return r


def _coefs(r):
    """Coefficients (ascending powers) of Bardell's function number r = 1, 2, ..."""
    if r == 1:
        return np.array([0.5, -0.75, 0, 0.25])
    if r == 2:
        return np.array([0.125, -0.125, -0.125, 0.125])
    if r == 3:
        return np.array([0.5, 0.75, 0, -0.25])
    if r == 4:
        return np.array([-0.125, -0.125, 0.125, 0.125])
    c = np.zeros(r)
    for n in range(0, r // 2 + 1):
        e = r - 2 * n - 1
        if e < 0:
            continue
        num = _fact2(2 * r - 2 * n - 7)
        c[e] += (-1) ** n * num / (2.0 ** n * math.factorial(n) * math.factorial(e))
    return c


def basis(num, xs, flags, der):
    """(len(xs), num) values of the functions (derivative der) at natural coordinates xs; flags: t1, r1, t2, r2."""
    xs = np.asarray(xs, dtype=float)
    out = np.empty((xs.size, num))
    for i in range(num):
        k = (i, der)
        if k not in _BASIS:
            _BASIS[k] = Po.polyder(_coefs(i + 1), der) if der else _coefs(i + 1)
        v = Po.polyval(xs, _BASIS[k])
        out[:, i] = v * flags[i] if i < 4 else v
    return out


class Geo(object):
    """What the reference needs to know of one panel."""
    def __init__(self, a, b, r, m, n, bc, x1=-1, x2=1, y1=-1, y2=1):
        self.a, self.b, self.r, self.m, self.n = a, b, (r or 0.), m, n
        self.bc = bc      # {'x1u':..., ...}
        self.dom = (x1, x2, y1, y2)
        self.size = 3 * m * n

    def fl(self, ax, f):
        return [float(self.bc[ax + s]) for s in ('1' + f, '1' + f + 'r', '2' + f, '2' + f + 'r')]

    def S(self, which, xi, eta, dx=0, dy=0):
        """Rows of shape functions of one displacement at points: (npts, size), zeros in the other displacements' columns."""
        comp = 'uvw'.index(which)
        F = basis(self.m, xi, self.fl('x', which), dx) * (2. / self.a) ** dx
        G = basis(self.n, eta, self.fl('y', which), dy) * (2. / self.b) ** dy
        M = np.einsum('pi,pj->pji', F, G).reshape(len(np.atleast_1d(xi)), -1)
        out = np.zeros((M.shape[0], self.size))
        out[:, comp::3] = M
        return out

    def nat(self, x, y):
        return 2. * np.asarray(x, float) / self.a - 1., 2. * np.asarray(y, float) / self.b - 1.

    def quad(self, nx, ny, full=False):
        px, wx = np.polynomial.legendre.leggauss(nx)
        py, wy = np.polynomial.legendre.leggauss(ny)
        x1, x2, y1, y2 = self.dom
        if full or not (x1 != -1 and x2 != -1):
            x1, x2 = 0., self.a
        if full or not (y1 != -1 and y2 != -1):
            y1, y2 = 0., self.b
        X = x1 + (px + 1) / 2 * (x2 - x1)
        Y = y1 + (py + 1) / 2 * (y2 - y1)
        XX, YY = np.meshgrid(X, Y, indexing='ij')
        W = np.outer(wx * (x2 - x1) / 2, wy * (y2 - y1) / 2)
        xi, eta = self.nat(XX.ravel(), YY.ravel())
        return xi, eta, W.ravel()


def fields(g, c, x, y):
    xi, eta = g.nat(x, y)
    return dict(u=g.S('u', xi, eta) @ c, v=g.S('v', xi, eta) @ c, w=g.S('w', xi, eta) @ c,
                phix=-(g.S('w', xi, eta, 1, 0) @ c), phiy=-(g.S('w', xi, eta, 0, 1) @ c))


def lin_B(g, xi, eta):
    """(6, npts, size): linear strain-displacement rows exx, eyy, gxy, kxx, kyy, kxy."""
    B = np.zeros((6, len(xi), g.size))
    B[0] = g.S('u', xi, eta, 1, 0)
    B[1] = g.S('v', xi, eta, 0, 1)
    if g.r:
        B[1] += g.S('w', xi, eta) / g.r
    B[2] = g.S('u', xi, eta, 0, 1) + g.S('v', xi, eta, 1, 0)
    B[3] = -g.S('w', xi, eta, 2, 0)
    B[4] = -g.S('w', xi, eta, 0, 2)
    B[5] = -2 * g.S('w', xi, eta, 1, 1)
    return B


def strains_at(g, c, xi, eta, NL, B=None):
    if B is None:
        B = lin_B(g, xi, eta)
    e = B @ c
    if NL:
        wx = g.S('w', xi, eta, 1, 0) @ c
        wy = g.S('w', xi, eta, 0, 1) @ c
        e = e.copy()
        e[0] += 0.5 * wx ** 2
        e[1] += 0.5 * wy ** 2
        e[2] += KAPPA * wx * wy
    return e


STRAINS = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
STRESSES = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


def strain(g, c, x, y, NL):
    xi, eta = g.nat(x, y)
    e = strains_at(g, c, xi, eta, NL)
    return dict(zip(STRAINS, e))


def stress(g, c, x, y, NL, ABD):
    xi, eta = g.nat(x, y)
    e = strains_at(g, c, xi, eta, NL)
    return dict(zip(STRESSES, np.tensordot(np.asarray(ABD), e, axes=(1, 0))))


def _nl_B(g, c, xi, eta):
    B = lin_B(g, xi, eta)
    Sx, Sy = g.S('w', xi, eta, 1, 0), g.S('w', xi, eta, 0, 1)
    wx, wy = Sx @ c, Sy @ c
    Bt = B.copy()
    Bt[0] += wx[:, None] * Sx
    Bt[1] += wy[:, None] * Sy
    Bt[2] += wx[:, None] * Sy + wy[:, None] * Sx
    return B, Bt, Sx, Sy, wx, wy


def _F(ABD, npts):
    ABD = np.asarray(ABD, float)
    if ABD.ndim == 2:
        return np.broadcast_to(ABD, (npts, 6, 6))
    return ABD.reshape(-1, 6, 6)


def kC(g, ABD, nx=None, ny=None, c=None, NL=False, full=False):
    nx = nx or g.m + 3
    ny = ny or g.n + 3
    xi, eta, W = g.quad(nx, ny, full)
    F = _F(ABD, len(W))
    if NL:
        _, Bt, _, _, _, _ = _nl_B(g, c, xi, eta)
    else:
        Bt = lin_B(g, xi, eta)
    FB = np.einsum('pab,bpk,p->apk', F, Bt, W, optimize=True)
    return np.tensordot(Bt, FB, axes=([0, 1], [0, 1]))


def kG(g, ABD, nx=None, ny=None, c=None, NL=False, N0=(0., 0., 0.), full=False):
    nx = nx or g.m + 3
    ny = ny or g.n + 3
    xi, eta, W = g.quad(nx, ny, full)
    Sx, Sy = g.S('w', xi, eta, 1, 0), g.S('w', xi, eta, 0, 1)
    N = np.array(N0, float)[:, None] * np.ones(len(W))
    if c is not None and np.any(c):
        e = strains_at(g, c, xi, eta, NL)
        N = N + np.einsum('pab,bp->ap', _F(ABD, len(W))[:, :3, :], e)
    A = (Sx * (W * N[0])[:, None]).T @ Sx + (Sy * (W * N[1])[:, None]).T @ Sy
    X = (Sx * (W * N[2])[:, None]).T @ Sy
    return A + X + X.T


def kM(g, h, rho, d, nx=None, ny=None, full=False):
    nx = nx or g.m + 3
    ny = ny or g.n + 3
    xi, eta, W = g.quad(nx, ny, full)
    h = np.broadcast_to(np.asarray(h, float), (nx, ny)).ravel() if np.ndim(h) else np.full(len(W), float(h))
    rho = np.broadcast_to(np.asarray(rho, float), (nx, ny)).ravel() if np.ndim(rho) else np.full(len(W), float(rho))
    U, V, Wm = g.S('u', xi, eta), g.S('v', xi, eta), g.S('w', xi, eta)
    Sx, Sy = g.S('w', xi, eta, 1, 0), g.S('w', xi, eta, 0, 1)
    q = (W * rho * h)[:, None]
    M = U.T @ (q * U) + V.T @ (q * V) + Wm.T @ (q * Wm)
    X = d * (U.T @ (q * Sx) + V.T @ (q * Sy))
    M += X + X.T
    q2 = (W * rho * h * (d * d + h * h / 12.))[:, None]
    M += Sx.T @ (q2 * Sx) + Sy.T @ (q2 * Sy)
    return M


def kA(g, beta, gamma, flow, nx=None, ny=None):
    """As the library defines it: the upper triangle of the integral, completed skew-symmetrically."""
    nx = nx or g.m + 3
    ny = ny or g.n + 3
    xi, eta, W = g.quad(nx, ny)
    w = g.S('w', xi, eta)
    if flow == 'x':
        A = gamma * (w.T @ (w * W[:, None])) - beta * (g.S('w', xi, eta, 1, 0).T @ (w * W[:, None]))
    else:
        A = -beta * (g.S('w', xi, eta, 0, 1).T @ (w * W[:, None]))
    return A


def fint(g, ABD, c, nx, ny):
    xi, eta, W = g.quad(nx, ny)
    B, Bt, Sx, Sy, wx, wy = _nl_B(g, c, xi, eta)
    e = B @ c
    e[0] += 0.5 * wx ** 2
    e[1] += 0.5 * wy ** 2
    e[2] += KAPPA * wx * wy
    N = np.einsum('pab,bp,p->ap', _F(ABD, len(W)), e, W)
    return np.einsum('apk,ap->k', Bt, N)


def gpoint(g, x, y):
    """(5, size): u, v, w, phix, phiy rows at one point."""
    xi, eta = g.nat([x], [y])
    return np.vstack([g.S('u', xi, eta), g.S('v', xi, eta), g.S('w', xi, eta), -g.S('w', xi, eta, 1, 0), -g.S('w', xi, eta, 0, 1)])


def fext(g, points, lines):
    """points: (x, y, fx, fy, fz, scale); lines: (x or None, y or None, (f, f, f), scale); line loads use as many Gauss
    points as there are terms along the line (at least one)."""
    f = np.zeros(g.size)
    for x, y, fx, fy, fz, s in points:
        f += s * (np.array([fx, fy, fz, 0, 0], float) @ gpoint(g, x, y))
    for x, y, fs, s in lines:
        L, num = (g.a, g.m) if x is None else (g.b, g.n)
        p, w = np.polynomial.legendre.leggauss(max(1, num))
        for pi, wi in zip(p, w):
            t = (pi + 1) / 2 * L
            G = gpoint(g, t, y) if x is None else gpoint(g, x, t)
            v = np.array([fk(t) if fk is not None else 0. for fk in fs] + [0., 0.], float)
            f += s * wi * L / 2 * (v @ G)
    return f


# ------------------------------------------------------------------ laminate (classical lamination theory)
def laminate(stack, plyts, props, rhos, offset=0.):
    h = float(sum(plyts))
    ABD = np.zeros((6, 6))
    z = -h / 2. + offset
    intrho = 0.
    for th, t, p, rho in zip(stack, plyts, props, rhos):
        E1, E2, nu12, G12 = [float(v) for v in p[:4]] if len(p) >= 4 else (p[0], p[0], p[1], p[0] / 2 / (1 + p[1]))
        nu21 = nu12 * E2 / E1
        q = 1 - nu12 * nu21
        Q = np.array([[E1 / q, nu12 * E2 / q, 0], [nu12 * E2 / q, E2 / q, 0], [0, 0, G12]])
        c, s = math.cos(math.radians(th)), math.sin(math.radians(th))
        T = np.array([[c * c, s * s, -2 * c * s], [s * s, c * c, 2 * c * s], [c * s, -c * s, c * c - s * s]])  # stress: local -> global
        Qb = T @ Q @ T.T
        z1 = z + t
        ABD[:3, :3] += Qb * t
        ABD[:3, 3:] += Qb * (z1 ** 2 - z ** 2) / 2.
        ABD[3:, 3:] += Qb * (z1 ** 3 - z ** 3) / 3.
        intrho += rho * t
        z = z1
    ABD[3:, :3] = ABD[:3, 3:].T
    return ABD, h, intrho


ORTHO = [(0, 2), (1, 2), (2, 0), (2, 1), (0, 5), (5, 0), (1, 5), (5, 1), (3, 2), (2, 3), (4, 2), (2, 4), (3, 5), (4, 5), (5, 3), (5, 4)]


def orthotropic(ABD):
    A = np.array(ABD)
    for i, j in ORTHO:
        A[i, j] = 0.
    return A


# ------------------------------------------------------------------ connections between panels
def conn_xcte(gA, gB, xA, xB, kt, kr, fr=False):
    """Line x = const: (size, size) pairs as a dict of blocks AA, AB, BB. fr: A.u with B.w, A.w with -B.u (flange to base)."""
    n = max(gA.n, gB.n) + 4
    p, w = np.polynomial.legendre.leggauss(n)
    eta = p
    J = gA.b / 2.
    xiA, xiB = 2 * xA / gA.a - 1, 2 * xB / gB.a - 1
    o = np.ones_like(eta)
    A = lambda f, dx=0, dy=0: gA.S(f, xiA * o, eta, dx, dy)
    B = lambda f, dx=0, dy=0: gB.S(f, xiB * o, eta, dx, dy)
    if fr:
        pairs = [(A('u'), B('w'), kt), (A('v'), B('v'), kt), (A('w'), -B('u'), kt), (A('w', 1), B('w', 1), kr)]
    else:
        pairs = [(A('u'), B('u'), kt), (A('v'), B('v'), kt), (A('w'), B('w'), kt), (A('w', 1), B('w', 1), kr)]
    return _pairs(pairs, w * J)


def conn_ycte(gA, gB, yA, yB, kt, kr, fr=False):
    m = max(gA.m, gB.m) + 4
    p, w = np.polynomial.legendre.leggauss(m)
    J = gA.a / 2.
    eA, eB = 2 * yA / gA.b - 1, 2 * yB / gB.b - 1
    o = np.ones_like(p)
    A = lambda f, dx=0, dy=0: gA.S(f, p, eA * o, dx, dy)
    B = lambda f, dx=0, dy=0: gB.S(f, p, eB * o, dx, dy)
    if fr:
        pairs = [(A('u'), B('u'), kt), (A('v'), B('w'), kt), (A('w'), -B('v'), kt), (A('w', 0, 1), B('w', 0, 1), kr)]
    else:
        pairs = [(A('u'), B('u'), kt), (A('v'), B('v'), kt), (A('w'), B('w'), kt), (A('w', 0, 1), B('w', 0, 1), kr)]
    return _pairs(pairs, w * J)


def conn_sb(gA, gB, d, kt):
    """Face to face over the whole panel: A's surface at distance d above its mid-plane, see the library's kCSB."""
    m, n = max(gA.m, gB.m) + 4, max(gA.n, gB.n) + 4
    xi, eta, W = gA.quad(m, n, full=True)
    pairs = [(gA.S('u', xi, eta) + d * gA.S('w', xi, eta, 1, 0), gB.S('u', xi, eta), kt),
             (gA.S('v', xi, eta) + d * gA.S('w', xi, eta, 0, 1), gB.S('v', xi, eta), kt),
             (gA.S('w', xi, eta), gB.S('w', xi, eta), kt)]
    return _pairs(pairs, W)


def _pairs(pairs, W):
    nA, nB = pairs[0][0].shape[1], pairs[0][1].shape[1]
    AA, AB, BB = np.zeros((nA, nA)), np.zeros((nA, nB)), np.zeros((nB, nB))
    for a, b, k in pairs:
        q = (k * W)[:, None]
        AA += a.T @ (q * a)
        AB -= a.T @ (q * b)
        BB += b.T @ (q * b)
    return dict(AA=AA, AB=AB, BB=BB)


def penalties(hA, hB, ABDA, ABDB, kind, dim1=None, dim2=None):
    i, j = (0, 3) if kind == 'x' else (1, 4)
    if kind == 'sb':
        i, j = 0, 3
    A1, A2, D1, D2 = ABDA[i, i], ABDB[i, i], ABDA[j, j], ABDB[j, j]
    kt = 4 * A1 * A2 / ((A1 + A2) * (hA + hB))
    kr = 4 * D1 * D2 / ((D1 + D2) * (hA + hB))
    if kind == 'sb':
        kt = kt / min(dim1, dim2)
        kr = kr / min(dim1, dim2)
    return kt, kr
