"""C11: statistics of 6D particle arrays."""
import math

import numpy as np

from mon.ptcls import worst

MODULES = ['rsbeams.rsstats.stats6d']
TECHNIQUE = 'reference model: extended precision definitions with error bounds, argument snapshots, repeated call histories'
RULE = ('6 by N arrays (N from 1 to thousands; scales 1e-15 to 1e6 per coordinate, offsets up to 1e11 deviations, correlated, '
        'constant, zero, integer, Fortran ordered and strided) go through random sequences of the statistics functions; '
        'values are compared with extended precision definitions, changed arrays with the exact transformation, computing '
        'functions must leave the array alone.  Non-trivial: not all zero; distinct by first particle, N and sequence.')
ASSUMPTIONS = ['floating point arrays for the functions that change the array']
REQUIRE = {'calls': 800, 'single_particle': 5, 'decorrelated': 30, 'narrow': 2, 'eigen_systems': 50, 'results_kept': 500}
EPS = 2.0 ** -52
L = np.longdouble


def array(ctx, n=None, well=False):
    rng, r = ctx.rng, ctx.np
    n = n or ctx.size([1, 2, 3, 4, 5, 8, 20, 100, 300], 20000, 0.005)
    a = r.normal(size=(6, n))
    if rng.random() < 0.6:
        a = r.normal(size=(6, 6)) @ a
    for k in range(6):
        scale = 10.0 ** (rng.uniform(-2, 2) if well else rng.uniform(-15, 6))
        a[k] = scale * (a[k] + rng.choice([0, 0, 1, -1, 30, 1e4, -1e6, 1e8, 1e11] if not well else [0, 0, 1, -3, 100]))
        if not well and rng.random() < 0.06:
            a[k] = rng.choice([0.0, scale, -scale])
        if not well and rng.random() < 0.04:
            a[k] *= 10.0 ** rng.choice([25, 40, 60, -40, -60])
    k = rng.randrange(5)
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2:
        b = np.zeros((6, 2 * n))
        b[:, ::2] = a
        a = b[:, ::2]
    elif k == 3:
        a = np.ascontiguousarray(a.T).T
    return a


def moments(a):
    x = a.astype(L)
    n = x.shape[1]
    m = x.sum(axis=1) / n
    d = x - m[:, None]
    cov = d @ d.T / n
    return m, cov


def tolerances(a):
    """Absolute error bounds of means and covariances computed in double precision."""
    x = np.abs(a).astype(float)
    n = x.shape[1]
    big = x.max(axis=1)
    m, cov = moments(a)
    s = np.sqrt(np.diag(cov).astype(float))
    tm = 4 * EPS * (n + 4) * big
    tc = 8 * EPS * (n + 8) * (np.outer(s, s) + np.outer(big, s) + np.outer(s, big)) + 4 * np.outer(tm, tm)
    return m.astype(float), cov.astype(float), tm, tc


def within(ctx, got, want, tol, mech, what, shape=None):
    got = np.asarray(got, dtype=float)
    if not ctx.check(got.shape == np.shape(want), mech, '%s has shape %s, expected %s' % (what, got.shape, np.shape(want))):
        return
    ctx.check(bool(np.all(np.abs(got - want) <= tol)), mech, lambda: '%s is %s' % (what, worst(got, want)))


def compute(ctx, a, name):
    from rsbeams.rsstats import stats6d
    out = ctx.call(getattr(stats6d, name), a, frozen=(a,))
    if not ctx.expect_ok(out, name, '%s on an array of shape %s' % (name, a.shape)):
        return
    with ctx.oracle(name):
        m, cov, tm, tc = tolerances(a)
        v = np.diag(cov)
        tv = np.diag(tc)
        if name == 'calc_avg6d':
            within(ctx, out.value, m, tm, name, name)
        elif name == 'calc_variance6d':
            within(ctx, out.value, v, tv, name, name)
        elif name == 'calc_rms6d':
            s = np.sqrt(v)
            within(ctx, out.value, s, np.minimum(np.sqrt(tv), tv / np.where(s > 0, s, 1e-300)) + 4 * EPS * s, name, name)
        elif name == 'calc_min6d':
            within(ctx, out.value, [min(map(float, r)) for r in a], 0, name, name)
        elif name == 'calc_max6d':
            within(ctx, out.value, [max(map(float, r)) for r in a], 0, name, name)
        elif name == 'calc_correlations6d':
            within(ctx, out.value, cov, tc, name, name)
        ctx.hold('results-kept', 'the result of %s for another array' % name, out.value)
        ctx.check(not (isinstance(out.value, np.ndarray) and np.shares_memory(out.value, a)), name + '-alias',
                  '%s returns a view of the particle array' % name)


def change(ctx, a, name):
    """Functions that change the array in place."""
    from rsbeams.rsstats import stats6d
    old = a.copy()
    m, cov, tm, tc = tolerances(old)
    s = np.sqrt(np.diag(cov))
    if name == 'normalize_rms6d' and not np.all(np.diag(tc) < 0.3 * s ** 2):
        return  # Spread of a coordinate is lost in the rounding
    out = ctx.call(getattr(stats6d, name), a)
    if not ctx.expect_ok(out, name, '%s on an array of shape %s' % (name, a.shape)):
        return
    with ctx.oracle(name):
        if name == 'sub_avg6d':
            within(ctx, a, old - m[:, None], (tm + 2 * EPS * np.abs(old).max(axis=1))[:, None], name, 'array after ' + name)
        elif name == 'normalize_rms6d':
            rel = np.diag(tc) / np.diag(cov) + 8 * EPS
            within(ctx, a, old / s[:, None], (np.abs(old) / s[:, None]) * rel[:, None], name, 'array after ' + name)
            ctx.count('narrow', int(np.any(s <= 1e-9 * np.abs(old).max(axis=1))))
            if np.all(rel < 1e-6):
                dev = np.sqrt(np.diag(moments(a)[1]).astype(float))
                within(ctx, dev, np.ones(6), 1e-5, name, 'deviation after ' + name)
        else:
            ctx.count('decorrelated')
            _, new = moments(a)
            new = new.astype(float)
            scale = np.trace(cov)
            off = new - np.diag(np.diag(new))
            tol = 1e-11 * scale + 4 * np.abs(tc).max()
            ctx.check(np.abs(off).max() <= tol, name, lambda: 'largest covariance after %s is %g (trace %g, before %g)'
                      % (name, np.abs(off).max(), scale, np.abs(cov - np.diag(np.diag(cov))).max()))
            within(ctx, np.sort(np.diag(new)), np.sort(np.linalg.eigvalsh(cov)), tol, name, 'variances after ' + name)
            norm = np.linalg.norm(old, axis=0)
            within(ctx, np.linalg.norm(a, axis=0), norm, 1e-12 * norm + 1e-300, name, 'length of the particle vectors')
            gram, want = a.T[:20] @ a[:, :20], old.T[:20] @ old[:, :20]
            within(ctx, gram, want, 1e-11 * np.outer(norm, norm)[:20, :20] + 1e-300, name, 'products of particle vectors')


COMPUTE = ['calc_avg6d', 'calc_variance6d', 'calc_rms6d', 'calc_min6d', 'calc_max6d', 'calc_correlations6d']


def sequence(ctx):
    rng = ctx.rng
    a = array(ctx, well=rng.random() < 0.4)
    n = a.shape[1]
    ctx.count('single_particle', int(n == 1))
    names = [rng.choice(COMPUTE * 2 + ['sub_avg6d', 'normalize_rms6d', 'rm_correlations6d']) for _ in range(rng.choice([3, 6]))]
    ctx.case((a[:, 0].tobytes(), n, tuple(names)), {'particles': n, 'first': a[:, 0].tolist(), 'calls': names},
             nontrivial=bool(np.any(a)))
    if n > 100:
        names = [x if x != 'rm_correlations6d' else 'sub_avg6d' for x in names]
    other = array(ctx, n=rng.choice([n, n, None])) if rng.random() < 0.4 else None
    for name in names:
        ctx.count('calls')
        if other is not None and rng.random() < 0.5:
            # another array, often as big, in between
            compute(ctx, other, rng.choice(COMPUTE))
        (compute if name in COMPUTE else change)(ctx, a, name)
        if rng.random() < 0.5:
            ctx.check_held()
        if ctx.violations:
            return


def integers(ctx):
    rng = ctx.rng
    a = ctx.np.integers(-1000, 1000, size=(6, rng.choice([1, 2, 5, 40])))
    for name in COMPUTE:
        ctx.case(('int', a.tobytes()[:60], name), {'integer array': a[:, :3].tolist(), 'call': name})
        ctx.count('calls')
        compute(ctx, a, name)


def big(ctx):
    a = array(ctx, 20000, well=True)
    for name in COMPUTE[:5]:
        ctx.case(('big', a[:, 0].tobytes(), name), {'particles': a.shape[1], 'call': name})
        ctx.count('calls')
        compute(ctx, a, name)


def eigen(ctx):
    from rsbeams.rsstats import stats6d
    rng, r = ctx.rng, ctx.np
    kind = rng.choice(['spd', 'symmetric', 'diagonal', 'zero', 'degenerate', 'singular', 'block', 'scaled'])
    b = r.normal(size=(6, 6))
    if kind == 'spd':
        s = b @ b.T
    elif kind == 'symmetric':
        s = b + b.T
    elif kind == 'diagonal':
        s = np.diag(r.normal(size=6))
    elif kind == 'zero':
        s = np.zeros((6, 6))
    elif kind == 'degenerate':
        q = np.linalg.qr(b)[0]
        s = q @ np.diag([1, 1, 1, 2, 2, 5.0]) @ q.T
    elif kind == 'singular':
        s = b[:, :3] @ b[:, :3].T
    elif kind == 'block':
        s = np.zeros((6, 6))
        for k in (0, 2, 4):
            s[k:k + 2, k:k + 2] = b[k:k + 2, k:k + 2] @ b[k:k + 2, k:k + 2].T
    else:
        d = np.diag(10.0 ** r.uniform(-6, 2, 6))
        s = d @ (b @ b.T) @ d
    s = s * 10.0 ** rng.choice([0, 0, -12, 6])
    s = (s + s.T) / 2
    if rng.random() < 0.15:
        kind, s = 'integer', r.integers(-9, 10, (6, 6))
        s = s + s.T
    ctx.case(('eigen', kind, s.tobytes()), {'matrix': kind, 'first row': s[0].tolist()}, nontrivial=bool(np.any(s)))
    ctx.count('eigen_systems')
    out = ctx.call(stats6d.jacobi_eigen_solver6d, s, frozen=(s,))
    if ctx.expect_ok(out, 'eigen', 'jacobi_eigen_solver6d(%s matrix)' % kind):
        with ctx.oracle('eigen'):
            vals, vecs = np.array(out.value[0], dtype=float), np.array(out.value[1], dtype=float)
            norm = np.linalg.norm(s)
            within(ctx, vecs.T @ vecs, np.eye(6), 1e-12, 'eigen-vectors', 'product of eigenvectors (%s)' % kind)
            within(ctx, s @ vecs, vecs * vals, 1e-12 * norm + 1e-300, 'eigen-system', 'matrix times eigenvectors (%s)' % kind)
            ctx.hold('results-kept', 'the eigen system of another matrix', out.value)


def figures(ctx):
    from rsbeams.rsstats import stats6d
    rng = ctx.rng
    for _ in range(20):
        n = rng.randint(1, 15)
        x = rng.choice([-1, 1]) * rng.uniform(0.1, 10) * 10 ** rng.randint(-30, 30)
        x = rng.choice([x, x, 0.0, 1.0, -1.0, 999.999, 0.001, 9.5, 99.95, 1e-5, 123456, -0.05])
        ctx.case(('figures', x, n), {'value': x, 'figures': n}, nontrivial=x != 0)
        out = ctx.call(stats6d.specify_significant_figures, x, n)
        if ctx.expect_ok(out, 'figures', 'specify_significant_figures(%r, %d)' % (x, n)):
            with ctx.oracle('figures'):
                v = out.value
                if x == 0:
                    ctx.check(v == 0, 'figures', 'zero is rounded to %r' % v)
                    continue
                unit = 10.0 ** (math.floor(math.log10(abs(x))) - n + 1)
                ctx.check(abs(v - x) <= 0.5 * unit * (1 + 1e-9) + 8 * EPS * abs(x), 'figures', '%r with %d figures is %r' % (x, n, v))
                short = float('%.*e' % (n - 1, v))
                ctx.check(abs(short - v) <= 1e-14 * abs(v), 'figures', '%r with %d figures is %r' % (x, n, v))


def run(ctx):
    for i in ctx.cases(250, 4000):
        sequence(ctx)
    for i in ctx.cases(10, 200):
        integers(ctx)
    for i in ctx.cases(2, 20):
        big(ctx)
    for i in ctx.cases(150, 3000):
        eigen(ctx)
    for i in ctx.cases(10, 200):
        figures(ctx)
