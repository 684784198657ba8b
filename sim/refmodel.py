"""A small executable reference model of the scheme dg1d documents: modal Legendre DG in
space, explicit Runge-Kutta in time, written from the formulas (field/cell/mode loops, no
code shared with /repo).  The Runge-Kutta tables are in rk_tables.json (the published
coefficients; their order conditions are checked by `python -m sim tables`).
"""
import json
import math
import os
import numpy as np
from numpy.polynomial import legendre as leg
from numpy.polynomial import polynomial as pol

HERE = os.path.dirname(os.path.abspath(__file__))
_TABLES = None


def table(name):
    global _TABLES
    if _TABLES is None:
        with open(os.path.join(HERE, 'rk_tables.json')) as f:
            _TABLES = json.load(f)
    t = _TABLES.get(name if name not in ('', 'low_storage_rk4') else 'rk4')
    return [float.fromhex(x) for x in t['b']], [[float.fromhex(x) for x in r] for r in t['a']]


# ------------------------------------------------------------------ initial conditions
def initial(d):
    """(f(x) -> list of conserved values, A, B, periodic, gamma)"""
    w = d['ic'].split()
    name = w[0]
    if name == 'sinewave':
        return (lambda x: [math.sin(2 * math.pi * x)]), -1.0, 1.0, True, 1.4
    if name == 'ictest':
        return (lambda x: [math.sin(x - math.pi / 3) ** 3 + 1]), -1.0, 1.0, True, 1.4

    def cons(rho, u, p, g):
        return [rho, rho * u, p / (g - 1) + 0.5 * rho * u * u]
    if name == 'entrpyw':
        return (lambda x: cons(1 + 0.2 * math.sin(math.pi * x), 1.0, 1.0, 1.4)), -1.0, 1.0, True, 1.4
    if name == 'acsticw':
        def f(x):
            h = 1e-4 * math.cos(0.5 * math.pi * x) ** 8
            return cons(1 + h, 0.0, 1 / 1.4 + h, 1.4)
        return f, -1.0, 1.0, True, 1.4
    if name == 'simplew':
        g = 3.0

        def f(x):
            if x <= -1.5:
                u = -2 / g
            elif x < -0.5:
                u = -(1 - math.tanh((x + 1) / (0.25 - (x + 1) ** 2))) / g
            elif x <= 0.5:
                u = 0.0
            elif x < 1.5:
                u = (1 + math.tanh((x - 1) / (0.25 - (x - 1) ** 2))) / g
            else:
                u = 2 / g
            a = 1 - (g - 1) / 2 * abs(u)
            rho = g * a ** (2 / (g - 1))
            return cons(rho, u, rho * a * a / g, g)
        return f, -4.0, 4.0, False, g
    if name == 'scktube':
        q = [float(x) for x in w[2:]]
        return (lambda x: cons(*(q[1:4] if x < q[0] else q[4:7]), 1.4)), -1.0, 1.0, False, 1.4
    if name == 'shuoshe':
        def f(x):
            if x < 1:
                return cons(3.857143, 2.629369, 10.333333, 1.4)
            return cons(1 + 0.2 * math.sin(5 * (x - 5)), 0.0, 1.0, 1.4)
        return f, 0.0, 10.0, False, 1.4
    raise ValueError(name)


# ------------------------------------------------------------------ Euler fluxes, one interface at a time
def prim(U, g):
    rho, m, E = U
    v = m / rho
    p = (g - 1) * (E - 0.5 * rho * v * v)
    return rho, v, p, math.sqrt(g * p / rho)


def flux(U, g):
    rho, m, E = U
    v = m / rho
    p = (g - 1) * (E - 0.5 * m * v)
    return [m, m * v + p, (E + p) * v]


def rusanov(L, R, g):
    l, r = prim(L, g), prim(R, g)
    s = max(abs(l[1]) + l[3], abs(r[1]) + r[3])
    fl, fr = flux(L, g), flux(R, g)
    return [0.5 * (fl[i] + fr[i] - s * (R[i] - L[i])) for i in range(3)]


def roe(L, R, g):
    rl, vl, pl, al = prim(L, g)
    rr, vr, pr, ar = prim(R, g)
    hl, hr = (L[2] + pl) / rl, (R[2] + pr) / rr
    w = math.sqrt(rr / rl)
    rho, v, h = w * rl, (vl + w * vr) / (1 + w), (hl + w * hr) / (1 + w)
    a = math.sqrt((g - 1) * (h - 0.5 * v * v))
    lam = [abs(v - a), abs(v), abs(v + a)]
    for i, spread in ((0, (vr - ar) - (vl - al)), (2, (vr + ar) - (vl + al))):
        D = max(0.0, 4 * spread)
        if lam[i] < 0.5 * D:
            lam[i] = lam[i] ** 2 / D + 0.25 * D
    dp, dv, dr = pr - pl, vr - vl, rr - rl
    s = [(dp - rho * a * dv) / (2 * a * a), dr - dp / (a * a), (dp + rho * a * dv) / (2 * a * a)]
    vec = [[1, v - a, h - v * a], [1, v, 0.5 * v * v], [1, v + a, h + v * a]]
    fl, fr = flux(L, g), flux(R, g)
    return [0.5 * (fl[i] + fr[i]) - 0.5 * sum(lam[k] * s[k] * vec[k][i] for k in range(3)) for i in range(3)]


class NoConvergence(Exception):
    pass


def godunov(L, R, g):
    rl, vl, pl, al = prim(L, g)
    rr, vr, pr, ar = prim(R, g)
    if vl >= al:
        return flux(L, g)
    if vr <= -ar:
        return flux(R, g)
    z = (g - 1) / (2 * g)
    p = ((0.5 * (vl - vr) * (g - 1) + al + ar) / (al * pl ** -z + ar * pr ** -z)) ** (1 / z)

    def mass(rho, a, p0, p):
        q = p / p0
        if q >= 1 - 1e-15:
            return rho * a * math.sqrt(1 + (g + 1) / (2 * g) * (q - 1))
        return rho * a * z * (1 - q) / (1 - q ** z)
    for k in range(101):
        ml, mr = mass(rl, al, pl, p), mass(rr, ar, pr, p)
        new = (ml * pr + mr * pl - ml * mr * (vr - vl)) / (ml + mr)
        if abs(new - p) < 1e-6:
            p = new
            break
        p = new
    else:
        raise NoConvergence()
    ml, mr = mass(rl, al, pl, p), mass(rr, ar, pr, p)
    v = (ml * vl + mr * vr - (pr - pl)) / (ml + mr)
    G = (g + 1) / (g - 1)

    def star(rho, p0):
        q = p / p0
        return rho * (1 + G * q) / (G + q) if q >= 1 else rho * q ** (1 / g)
    sl, sr = star(rl, pl), star(rr, pr)
    aml, amr = math.sqrt(g * p / sl), math.sqrt(g * p / sr)
    rho = sl if v >= 0 else sr

    def sonic(u1, c1, p1, u2, c2, e1, e2):
        A, B = e2 / (e2 - e1), -e1 / (e2 - e1)
        u, c = A * u1 + B * u2, A * c1 + B * c2
        pp = (c / c1) ** (2 * g / (g - 1)) * p1
        return g * pp / (c * c), u, pp
    if v - aml <= 0 <= v + amr:
        s = (rho, v, p)
    elif v - aml > 0 and vl - al < 0:
        s = sonic(vl, al, pl, v, aml, vl - al, v - aml)
    elif v + amr < 0 and vr + ar > 0:
        s = sonic(vr, ar, pr, v, amr, vr + ar, v + amr)
    else:
        raise NoConvergence()
    rho, u, pp = s
    return flux([rho, rho * u, pp / (g - 1) + 0.5 * rho * u * u], g)


RIEMANN = {'roe': roe, 'rusanov': rusanov, 'godunov': godunov}


# ------------------------------------------------------------------ the model
class Ref:
    """U[field, cell, mode]; no stored ghost cells."""

    def __init__(self, d, modify=None, node_shift=0.0):
        self.d = d
        self.p = p = d['order']
        self.N = N = int(d['ic'].split()[1])
        self.f, A, B, self.periodic, self.g = initial(d)
        self.nf = 3 if d['system'] == 'euler' else 1
        self.dx = (B - A) / N
        self.xg, self.wg = leg.leggauss(p + 1)
        self.V = leg.legvander(self.xg, p)                       # node x mode
        self.dV = np.array([leg.legval(self.xg, leg.legder([0] * n + [1])) if n else 0 * self.xg
                            for n in range(p + 1)]).T
        n = np.arange(p + 1)
        self.sgn = (-1.0) ** n
        self.inv = (2 * n + 1) / self.dx
        self.U = np.zeros((self.nf, N, p + 1))
        for e in range(N):
            mid = A + (e + 0.5) * self.dx
            v = np.array([self.f(mid + 0.5 * self.dx * x + node_shift) for x in self.xg])   # node x field
            for k in range(self.nf):
                self.U[k, e] = (2 * n + 1) / 2.0 * (self.V.T @ (self.wg * v[:, k]))
        if modify is not None:
            self.U = modify(self.U)
        self.t, self.n = 0.0, 0
        self.th = d.get('thresholds') or []
        self.limiting = d.get('limiting') == 'adaptive_hr'
        self.modes = sorted(int(m) for m in d['enhance'].split()[1:]) if d.get('enhance') else None
        if self.modes is not None:
            self.setup_enhance()
        self.b, self.a = table(d['rk'] if d['rk'] in ('rk3', 'rk4', 'rk5', 'rk6', 'rk8', 'rk10', 'rk12', 'rk14')
                               else 'rk4')
        # Legendre <-> Taylor coefficients
        T = np.zeros((p + 1, p + 1))
        for k in range(p + 1):
            c = leg.leg2poly([0] * k + [1])
            for j, x in enumerate(c):
                T[j, k] = x * math.factorial(j)
        self.L2T, self.T2L = T, np.linalg.inv(T)
        self.flags = np.zeros(N, dtype=int)
        if self.limiting:
            self.limit_all()

    # -- boundary conditions
    def ghosts(self, U):
        l = U[:, -1:] if self.periodic else U[:, :1]
        r = U[:, :1] if self.periodic else U[:, -1:]
        return np.concatenate([l, U, r], axis=1)

    # -- enhanced face values: the polynomial of degree p+m that has all the moments of the
    #    cell and the chosen moments of its neighbour
    def setup_enhance(self):
        p, modes = self.p, self.modes
        q = p + len(modes)
        xg, wg = leg.leggauss(q + p + 2)

        def vectors(shift, face):
            M = np.zeros((q + 1, q + 1))
            for i in range(p + 1):
                M[i, i] = 1.0
            for r, m in enumerate(modes):
                for j in range(q + 1):
                    M[p + 1 + r, j] = (2 * m + 1) / 2.0 * np.sum(
                        wg * leg.legval(xg, [0] * m + [1]) * leg.legval(xg + shift, [0] * j + [1]))
            row = leg.legval(face, np.eye(q + 1))
            w = np.linalg.solve(M.T, row)
            own = w[:p + 1]
            other = np.zeros(p + 1)
            for r, m in enumerate(modes):
                other[m] = w[p + 1 + r]
            return own, other
        self.right_own, self.right_other = vectors(2.0, 1.0)
        self.left_own, self.left_other = vectors(-2.0, -1.0)

    def faces(self, G):
        """States on both sides of each of the N+1 interfaces, from cells with ghosts."""
        if self.modes is None:
            return G[:, :-1] @ np.ones(self.p + 1), G[:, 1:] @ self.sgn
        return (G[:, :-1] @ self.right_own + G[:, 1:] @ self.right_other,
                G[:, 1:] @ self.left_own + G[:, :-1] @ self.left_other)

    # -- the semi-discrete operator
    def rhs(self, U):
        G = self.ghosts(U)
        L, R = self.faces(G)
        N = self.N
        if self.nf == 1:
            q = L
            fv = U @ self.V.T
        else:
            num = RIEMANN.get(self.d.get('riemann', 'roe'), roe)
            q = np.array([num(L[:, i], R[:, i], self.g) for i in range(N + 1)]).T
            ug = U @ self.V.T
            v = ug[1] / ug[0]
            pr = (self.g - 1) * (ug[2] - 0.5 * ug[1] * v)
            fv = np.array([ug[1], ug[1] * v + pr, (ug[2] + pr) * v])
        vol = (fv * self.wg) @ self.dV
        surf = q[:, 1:, None] - q[:, :-1, None] * self.sgn
        self.boundary = (q[:, 0].copy(), q[:, -1].copy())
        return (vol - surf) * self.inv

    # -- limiting
    def sense(self, U):
        m = self.ghosts(U)[:, :, 0]
        N = self.N
        flags = np.zeros(N + 2, dtype=int)
        if self.nf == 1:
            for i in range(N + 1):
                s = abs(m[0, i + 1] - m[0, i])
                if 2 * s / (1 + s) ** 2 > self.th[0]:
                    flags[i] = flags[i + 1] = 1
            return flags[1:-1]
        mark2 = []
        for i in range(N + 1):
            rl, vl, pl, al = prim(m[:, i], self.g)
            rr, vr, pr, ar = prim(m[:, i + 1], self.g)
            w = math.sqrt(rr / rl)
            v = (vl + w * vr) / (1 + w)
            h = ((m[2, i] + pl) / rl + w * (m[2, i + 1] + pr) / rr) / (1 + w)
            a = math.sqrt((self.g - 1) * (h - 0.5 * v * v))
            s = abs(rr - rl - (pr - pl) / a ** 2) / (rl + rr)
            if 2 * s / (1 + s) ** 2 > self.th[0]:
                flags[i] = flags[i + 1] = 1
            s = abs(pr - pl) / (pl + pr)
            if 2 * s / (1 + s) ** 2 > self.th[1] and vl - al > v - a > vr - ar:
                mark2.append(i)
        for i in mark2:
            flags[i] = flags[i + 1] = 2
        return flags[1:-1]

    def limit_cell(self, c, l, r):
        """Hierarchical reconstruction on Taylor coefficients."""
        p = self.p
        C, Lc, R = self.L2T @ c, self.L2T @ l, self.L2T @ r
        P = [1.0 / math.factorial(j) for j in range(p + 1)]

        def mean(poly, a, b):
            q = pol.polyint(poly)
            return 0.5 * (pol.polyval(b, q) - pol.polyval(a, q))

        def deriv(T, m):       # m-th derivative of the polynomial with Taylor coefficients T
            q = np.array([T[j] * P[j] for j in range(p + 1)])
            return pol.polyder(q, m) if m else q
        new = np.zeros(p + 1)
        for m in range(p, 0, -1):
            rem = np.zeros(p + 1)
            rem[m + 1:] = new[m + 1:]
            rp = deriv(rem, m - 1)
            ml = mean(deriv(Lc, m - 1), -1, 1) - mean(rp, -3, -1)
            mc = mean(deriv(C, m - 1), -1, 1) - mean(rp, -1, 1)
            mr = mean(deriv(R, m - 1), -1, 1) - mean(rp, 1, 3)
            new[m] = sorted([0.5 * (mc - ml), 0.5 * (mr - mc), 0.0])[1]
            if m == 1:
                new[0] = mc
        return self.T2L @ new

    def limit(self, U):
        if not self.limiting:
            return U
        flags = self.sense(U)
        self.flags = flags
        G = self.ghosts(U)
        V = U.copy()
        for e in range(self.N):
            if flags[e]:
                for k in range(self.nf):
                    V[k, e] = self.limit_cell(G[k, e + 1], G[k, e], G[k, e + 2])
        return V

    def limit_all(self):
        self.U = self.limit(self.U)

    # -- time
    def vmax(self):
        if self.nf == 1:
            return 1.0
        return max(abs(q[1]) + q[3] for q in (prim(self.U[:, e, 0], self.g) for e in range(self.N)))

    def dt_cfl(self):
        return self.dx * self.d['cfl'] / (self.vmax() * (2 * self.p + 1))

    def step(self, dt):
        K = []
        for i in range(len(self.b)):
            S = self.U.copy()
            for j in range(i):
                if self.a[i][j] != 0.0:
                    S = S + self.a[i][j] * K[j]
            if i > 0:
                S = self.limit(S)
            K.append(dt * self.rhs(S))
        U = self.U.copy()
        for c, k in zip(self.b, K):
            U = U + c * k
        self.U = self.limit(U)
        self.t += dt
        self.n += 1

    def advance(self, times, max_steps=5000):
        """Advance through the increasing output times; yields after each."""
        for tout in times:
            done = False
            while not done:
                dt = self.dt_cfl()
                if not (dt > 0) or self.n > max_steps or not np.all(np.isfinite(self.U)):
                    raise NoConvergence()
                if dt > tout - self.t:
                    dt, done = tout - self.t, True
                self.step(dt)
            yield self
