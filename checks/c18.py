"""C18: centroid decoherence."""
import time

import numpy as np

from rsbeams.rsphysics.decoherence import CentroidPosition

MODULES = ['rsbeams.rsphysics.decoherence']
TECHNIQUE = 'reference monitor: every centroid observed is compared with composite Gauss quadrature of the average it stands for'
RULE = ('Random kicks, tunes and tune dependence coefficients of either sign and zero (orders one to five), turn numbers from 0 to 1e5, in any '
        'order of calls, with the closed forms, the quadrature and the process pool.  Non-trivial: turn above zero and coefficients not all zero; '
        'distinct by parameters and turn.')
ASSUMPTIONS = ['numerical integration of any order is compared where the phase varies by less than 150 rad, the range its quadrature resolves']
REQUIRE = {'first_order': 200, 'second_order': 200, 'any_order': 100, 'turn_zero': 30, 'pools': 15, 'negative': 100, 'zero_coefficient': 40,
           'default_turn': 40, 'cases_at_once': 20}
NODES = np.polynomial.legendre.leggauss(24)


def average(n, Z, nu0, mu):
    """Z times the average of cos(2 pi n (nu0 - mu1 s - mu2 s^2 ...)) over s = a^2 uniform in [0, 1]."""
    if n == 0:
        return Z
    slope = 2 * np.pi * n * sum((k + 1) * abs(m) for k, m in enumerate(mu))
    panels = int(slope / 8) + 2
    edges = np.linspace(0, 1, panels + 1)
    mid, half = (edges[1:] + edges[:-1]) / 2, (edges[1:] - edges[:-1]) / 2
    s = mid[:, None] + half[:, None] * NODES[0][None, :]
    poly = np.zeros_like(s)
    for m in reversed(list(mu)):
        poly = (poly + m) * s
    turns = n * nu0 - np.floor(n * nu0)
    return Z * float(np.sum(np.cos(2 * np.pi * (turns - n * poly)) * NODES[1][None, :] * half[:, None]))


def delayed(name):
    def late(self, *args):
        if args and args[0] % 37 < 2:
            time.sleep(0.03 / (1 + args[0]))
        return getattr(CentroidPosition, name)(self, *args)
    return late


class Delayed(CentroidPosition):
    """Injects delays into the calculation of the first turns of each chunk, whichever process has them."""
    integrate_first_order, integrate_second_order, integrate_any_order = map(
        delayed, ['integrate_first_order', 'integrate_second_order', 'integrate_any_order'])


def coefficient(ctx):
    rng = ctx.rng
    return rng.choice([0.0, rng.uniform(-0.5, 0.5), rng.uniform(-1e-3, 1e-3), 10 ** rng.uniform(-6, -2), -10 ** rng.uniform(-6, -2), 0.1])


def case(ctx):
    from rsbeams.rsphysics.decoherence import CentroidPosition
    rng = ctx.rng
    order = rng.choice([1, 1, 2, 2, 2, 3, 4, 5])
    mu = [coefficient(ctx) for _ in range(order)]
    Z = rng.choice([1.0, 10 ** rng.uniform(-3, 3), -2.5, 0.0])
    nu0 = rng.choice([0.0, 0.25, rng.uniform(0, 1), rng.uniform(-10, 10), 0.5])
    N = rng.choice([0, 1, 2, 10, 100, 1000, rng.randrange(1, 100000)])
    arg = rng.choice([list, tuple, np.array])(mu)
    out = ctx.call(CentroidPosition, N, Z, nu0, arg, frozen=(arg,))
    if not ctx.expect_ok(out, 'create', 'CentroidPosition'):
        return
    obj = out.value
    turns = [None, 0, 1, 2, N] + [rng.randrange(0, max(N, 3)) for _ in range(6)]
    rng.shuffle(turns)
    for t in turns:
        n = N if t is None else t
        what = 'turn %s of CentroidPosition(%d, %r, %r, %r)' % (t, N, Z, nu0, mu)
        if 2 * np.pi * n * sum((k + 1) * abs(m) for k, m in enumerate(mu)) > 3e6:
            continue
        ctx.case((tuple(mu), Z, nu0, n), {'N': N, 'Z': Z, 'nu0': nu0, 'mu': mu, 'turn': t}, nontrivial=n > 0 and any(mu))
        ctx.count('turn_zero', int(n == 0))
        ctx.count('default_turn', int(t is None))
        ctx.count('negative', int(min(mu) < 0))
        ctx.count('zero_coefficient', int(0.0 in mu))
        phase = 2 * np.pi * n * (abs(nu0) + sum(map(abs, mu)))
        eps = 4e-16 * (10 + phase)
        runs = []
        if n == 0 or 2 * np.pi * n * sum(map(abs, mu)) < 150:
            runs.append(('integrate_any_order', mu, 3e-8 * (1 + abs(Z)) + abs(Z) * eps, 'any_order'))
        runs.append(('integrate_first_order', mu[:1], abs(Z) * (eps + 1e-12), 'first_order'))
        if order >= 2:
            tol = eps + 1e-12
            if mu[1] != 0 and n:
                # conditioning of the closed form: difference of Fresnel integrals at a common phase
                tol += 4e-15 * (1 + phase + np.pi * mu[0] ** 2 * n / (2 * abs(mu[1]))) / np.sqrt(4 * abs(mu[1]) * n)
            runs.append(('integrate_second_order', mu[:2], abs(Z) * tol, 'second_order'))
        for name, used, tol, counter in runs:
            out = ctx.call(getattr(obj, name), frozen=(arg,), **({} if t is None else {'turn': t}))
            if not ctx.expect_ok(out, name, '%s at %s' % (name, what)):
                return
            if tol > 0.01 * abs(Z) + 1e-6:
                continue
            ctx.count(counter)
            with ctx.oracle(name):
                want = average(n, Z, nu0, used)
                got = float(out.value)
                ctx.check(abs(got - want) <= tol, name, '%s at %s is %r, expected %r (tolerance %.1g)' % (name, what, got, want, tol))
                if n == 0:
                    ctx.check(got == Z, name, '%s at %s is %r, not the initial offset' % (name, what, got))
        ctx.check((obj.N, obj.Z, obj.nu0) == (N, Z, nu0), 'state', 'parameters of the object change')
        yield
    ctx.again('centroids-kept', 'first order centroids of an object made before', lambda: (
        obj.integrate_first_order(turn=1), obj.integrate_first_order(turn=min(N, 7))))


def pool(ctx, i):
    from rsbeams.rsphysics.decoherence import CentroidPosition
    rng = ctx.rng
    order = 1 + i % 3
    mu = [rng.choice([rng.uniform(-0.02, 0.02), 0.01]) for _ in range(order)]
    if order < 3 and i % 4 == 3:
        mu[-1] = 0.0
    Z, nu0, N = rng.uniform(0.1, 5), rng.uniform(0, 1), rng.choice([0, 1, 7, 40]) if i % 5 == 0 else rng.choice([40, 150, 300])
    p = [3, 1, 8, 2, 5][i % 5]
    ctx.case(('pool', tuple(mu), Z, nu0, N, p), {'N': N, 'Z': Z, 'nu0': nu0, 'mu': mu, 'processes': p})
    # some turns take longer than others
    out = ctx.call((CentroidPosition if i % 3 == 1 and i % 2 else Delayed)(N, Z, nu0, mu).calculate_centroids, p)
    ctx.count('pools')
    if ctx.expect_ok(out, 'pool', 'calculate_centroids(%d) with N=%d' % (p, N)):
        with ctx.oracle('pool'):
            got = np.asarray(out.value, dtype=float)
            want = np.array([average(n, Z, nu0, mu) for n in range(N)])
            ctx.check(got.shape == (N,), 'pool', 'calculate_centroids gives %s turns, expected %d' % (got.shape, N))
            ctx.check(np.all(np.abs(got - want) <= 1e-7 * (1 + Z)), 'pool', 'centroids of mu=%r, Z=%r, nu0=%r differ: %s, expected %s'
                      % (mu, Z, nu0, got[:5], want[:5]))


def run(ctx):
    for i in ctx.cases(90, 1500):
        ctx.interleave(case)
    for i in ctx.cases(18, 60):
        pool(ctx, i)
