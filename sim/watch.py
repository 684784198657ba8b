"""Observation of the time integrator from outside: stand-ins for the spatial operator that
are handed to rk.integrate (its existing seam) and watch the solution being advanced."""
import math
import numpy as np

from . import decks, life


def wave_speed(u, nf, g):
    """Largest signal speed over the cell averages of the interior."""
    if nf == 1:
        return 1.0
    a = u[0, 3:-3]
    rho, m, E = a[0::3], a[1::3], a[2::3]
    v = m / rho
    return float(np.max(np.abs(v) + np.sqrt(g * (g - 1) * (E - 0.5 * rho * v * v) / rho)))


class Watch:
    """Passes residual() through to the real operator; reports every completed step."""

    def __init__(self, inner, main, on_step=None, on_stage=None):
        self.inner, self.main = inner, main
        self.on_step, self.on_stage = on_step, on_stage
        self.last = None
        self.steps = 0
        self.stage = 0

    def residual(self, sol):
        key = (self.main.n, float(self.main.t))
        if key != self.last:
            self.last = key
            self.stage = 0
            self.steps += 1
            if self.on_step:
                self.on_step(self.main)
        r = self.inner.residual(sol)
        if self.on_stage:
            r2 = self.on_stage(self, sol, r)
            if r2 is not None:
                r = r2
        self.stage += 1
        return r

    def __getattr__(self, name):
        return getattr(self.inner, name)

    def finish(self):
        self.last = None
        if self.on_step:
            self.on_step(self.main)


class Script:
    """A spatial operator that steers the wave speed: step i moves the cell averages towards
    states whose largest signal speed is speeds[i] (never past them)."""

    def __init__(self, main, nf, g, speeds, cells, cfl):
        self.main, self.nf, self.g = main, nf, g
        self.speeds, self.cells, self.cfl = speeds, cells, cfl
        self.cache = None

    def states(self, i):
        """Cell averages of target i: slow everywhere, the given speed in one cell."""
        N = self.main.N_E
        s = self.speeds[i % len(self.speeds)]
        e = self.cells[i % len(self.cells)] % N
        out = np.zeros((3, N))
        for k in range(N):
            sp = s if k == e else 0.25 * s
            v, a = (0.6 * sp, 0.4 * sp) if (i + k) % 2 else (-0.3 * sp, 0.7 * sp)
            rho = 1.0
            out[:, k] = rho, rho * v, rho * a * a / (self.g * (self.g - 1)) + 0.5 * rho * v * v
        return out

    def start(self):
        u = self.main.u
        u[:] = 0
        m = self.states(0)
        for k in range(3):
            u[0, 3 + k:-3:3] = m[k]
        self.main.apply_bc()

    def residual(self, sol):
        life.tick()
        r = np.zeros(sol.u.shape)
        if self.nf == 1:
            return r
        key = (self.main.n, float(self.main.t))
        if self.cache is None or self.cache[0] != key:
            u = self.main.u
            dt = self.main.dx * self.cfl / (wave_speed(u, 3, self.g) * (2 * self.main.basis.p + 1))
            now = np.array([u[0, 3 + k:-3:3] for k in range(3)])
            self.cache = (key, (self.states(self.main.n + 1) - now) / dt)
        for k in range(3):
            r[0, 3 + k:-3:3] = self.cache[1][k]
        return r


class Free:
    """A limiter that does nothing (and depends on nothing)."""

    def limit(self, sol):
        pass
