"""Independent physics of the bunch distributions, and the statistics that the checks of bunches use."""
import numpy as np
from scipy import special


def normalised(p, bx, ax, by, ay):
    """Courant-Snyder normalised coordinates x, px, y, py of particles (x, xp, y, yp, ...)."""
    sx, sy = np.sqrt(bx), np.sqrt(by)
    return (p[:, 0] / sx, p[:, 1] * sx + ax * p[:, 0] / sx, p[:, 2] / sy, p[:, 3] * sy + ay * p[:, 2] / sy)


def elliptic(x, y, t, c):
    """Potential of the elliptic insert in its complex form: x^2/2 + y^2/2 + t c^2 Re(z asin(z)/sqrt(1-z^2)), z=(x+iy)/c."""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    v = 0.5 * (x * x + y * y)
    if t == 0:
        return v
    z = (x + 1j * y) / c
    with np.errstate(all='ignore'):
        return v + t * c * c * np.real(z * np.arcsin(z) / np.sqrt(1 - z) / np.sqrt(1 + z))


def ks(u):
    """p value of the Kolmogorov test of u against the uniform distribution on [0, 1]."""
    u = np.sort(np.asarray(u, dtype=float).ravel())
    n = len(u)
    if n == 0 or not np.all(np.isfinite(u)) or u[0] < -1e-9 or u[-1] > 1 + 1e-9:
        return 0.0
    i = np.arange(1, n + 1)
    d = max(np.max(i / n - u), np.max(u - (i - 1) / n))
    return float(special.kolmogorov(d * np.sqrt(n)))


def normal_cdf(x):
    return special.ndtr(x)


def angle(p, q):
    return (np.arctan2(p, q) / (2 * np.pi)) % 1.0


class Pool:
    """Collects values that must be uniform over all cases, and tests them case by case and together."""
    P_MIN = 1e-10

    def __init__(self, ctx):
        self.ctx, self.values = ctx, {}

    def add(self, name, u, what):
        self.values.setdefault(name, []).append(np.asarray(u, dtype=float).ravel())
        if len(u) >= 20:
            pv = ks(u)
            self.ctx.count('ks_tests')
            self.ctx.check(pv > self.P_MIN, 'distribution', '%s of %s: p=%.2g for %d particles' % (name, what, pv, len(u)))

    def finish(self):
        for name, values in self.values.items():
            u = np.concatenate(values)
            pv = ks(u)
            self.ctx.count('pooled_values', len(u))
            self.ctx.check(pv > self.P_MIN, 'distribution', '%s: p=%.2g for %d particles of all cases' % (name, pv, len(u)))
            if len(u) >= 20:
                # a range without particles, inside or at an end: (n + 1) (1 - g)^n bounds the chance of a gap g
                edges = np.concatenate([[0.0], np.sort(np.clip(u, 0, 1)), [1.0]])
                g = np.diff(edges)
                j = int(np.argmax(g))
                pv = (len(u) + 1) * (1 - g[j]) ** len(u)
                self.ctx.count('gap_tests')
                self.ctx.check(pv > self.P_MIN, 'distribution', '%s: no particle of %d between quantiles %.6g and %.6g: p=%.2g'
                               % (name, len(u), edges[j], edges[j + 1], pv))


def companion(ctx, kind, n, dist, quiet, parameters):
    """A second bunch of as many particles."""
    if dist == 'KV':
        parameters = dict(parameters, emity=parameters['emitx'])
    out = ctx.call(kind, n, dist, quiet=quiet, **parameters)
    if not ctx.expect_ok(out, 'create', 'a second bunch'):
        return None
    ctx.count('companions')
    return out.value


def meanwhile(ctx, b, other):
    """Something is done with the second bunch; the first one is not concerned."""
    from mon.core import snapshot
    before = snapshot(vars(b))
    k = ctx.rng.randrange(4)
    if k == 0:
        out = ctx.call(other.set_longitudinal_coordinates)
    elif k == 1:
        out = ctx.call(setattr, other, 'alphax', ctx.rng.uniform(-2, 2))
    else:
        out = ctx.call(other.set_transverse_coordinates, steps=200_000_000)
    if ctx.expect_ok(out, 'companion', 'operation on a second bunch'):
        ctx.count('companion_operations')
        ctx.check(snapshot(vars(b)) == before, 'companion', 'an operation on a second bunch changes the first one')


TWISS_NAMES = ('betax', 'alphax', 'betay', 'alphay')
