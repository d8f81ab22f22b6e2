"""C12: sampling of densities."""
import numpy as np

from mon.core import snapshot

MODULES = ['rsbeams.rsstats.sample']
TECHNIQUE = 'statistical oracle with deterministic bounds: discrepancy of the exact CDF at the samples, range and grid monitors'
RULE = ('Densities with known cumulative distribution (uniform, ramp, Gaussian, cosine, exponential, bimodal; with and '
        'without arguments), intervals from 1e-9 to 1e6 of either sign, 1 to 100000 samples, 60 to 20000 grid points, both '
        'methods and both inversions.  Samples must lie in the interval and their Kolmogorov distance stay below a bound '
        '(Halton: (log2 n + 3)/n; random: 3.2/sqrt(n), false alarm probability below 1e-8) plus the resolution of the grid. '
        'Non-trivial: more than one sample; distinct by density, interval, sizes and options.')
ASSUMPTIONS = ['density is positive on the interval and resolved by the grid']
DEPTH = 2
REQUIRE = {'samples': 100000, 'halton': 20, 'numeric': 20, 'grids': 50, 'coarse': 30, 'with_arguments': 30, 'refused': 4, 'positions': 200, 'results_kept': 300}


def given(args):
    return () if args is None else tuple(args) if isinstance(args, (tuple, list, np.ndarray)) else (args,)


def densities(ctx):
    """(name, density(x, *args), args, cdf on [a, b]); all in u = (x - a) / (b - a)."""
    rng = ctx.rng
    a = rng.choice([0.0, -1.0, 1.0, -5.0, rng.uniform(-1e3, 1e3)])
    b = a + rng.choice([1.0, 2.0, 10.0, 10.0 ** rng.uniform(-6, 6)])
    w = b - a
    kind = rng.choice(['uniform', 'ramp', 'gauss', 'cosine', 'exponential', 'bimodal'])
    from scipy.special import erf
    if kind == 'uniform':
        f, c = lambda u: np.ones_like(u), lambda u: u
    elif kind == 'ramp':
        k = rng.choice([-0.9, 0.5, 3.0, 20.0])
        f, c = lambda u: 1 + k * u, lambda u: (u + k * u * u / 2) / (1 + k / 2)
    elif kind == 'gauss':
        m, s = rng.uniform(0.3, 0.7), rng.uniform(0.12, 0.4)
        g = lambda u: erf((u - m) / s / 2 ** 0.5)
        f, c = lambda u: np.exp(-((u - m) / s) ** 2 / 2), lambda u: (g(u) - g(0.0)) / (g(1.0) - g(0.0))
    elif kind == 'cosine':
        q = rng.choice([1, 2, 3])
        f, c = lambda u: 1 + 0.8 * np.cos(2 * np.pi * q * u), lambda u: u + 0.8 * np.sin(2 * np.pi * q * u) / (2 * np.pi * q)
    elif kind == 'exponential':
        k = rng.choice([-6.0, 2.0, 6.0])
        f, c = lambda u: np.exp(k * u), lambda u: np.expm1(k * u) / np.expm1(k)
    else:
        g = lambda u: 0.7 * erf((u - 0.25) / 0.1 / 2 ** 0.5) + 0.3 * erf((u - 0.75) / 0.1 / 2 ** 0.5) + 0.2 * u
        f = lambda u: 0.7 * np.exp(-((u - 0.25) / 0.1) ** 2 / 2) + 0.3 * np.exp(-((u - 0.75) / 0.1) ** 2 / 2) \
            + 0.2 * 0.1 * (np.pi / 2) ** 0.5
        c = lambda u: (g(u) - g(0.0)) / (g(1.0) - g(0.0))
    norm = rng.choice([1.0, 1.0 / w, 17.0])
    how = rng.randrange(8)
    cdf = lambda x: c((np.asarray(x) - a) / w)
    if how == 0:
        return kind, (lambda x: norm * f((x - a) / w)), None, a, b, cdf
    if how == 1:
        return kind, (lambda x, lo, hi: norm * f((x - lo) / (hi - lo))), (a, b), a, b, cdf
    if how == 2:
        return kind, (lambda x, width: norm * f((x - a) / width)), (w,), a, b, cdf
    if how == 3:
        return kind, (lambda x, width: norm * f((x - a) / width)), w, a, b, cdf
    if how == 4:
        return kind, (lambda x, lo, hi: norm * f((x - lo) / (hi - lo))), rng.choice([np.array([a, b]), [a, b]]), a, b, cdf
    if how == 5:
        # a single argument of zero, of any type
        z = rng.choice([0, 0.0, -0.0, False, np.float64(0), np.int64(0), (0,)])
        return kind, (lambda x, shift: norm * f((x - a - shift) / w)), z, a, b, cdf
    if how == 6:
        return kind, (lambda x, scale=norm: scale * f((x - a) / w)), (), a, b, cdf
    # two arguments of which the first or both are zero
    return kind, (lambda x, shift, other: (norm + other) * f((x - a - shift) / w)), (0.0, rng.choice([0, 1.0])), a, b, cdf


def draw(ctx, n, wn, method, invert):
    from rsbeams.rsstats.sample import sample
    rng = ctx.rng
    kind, f, args, a, b, cdf = densities(ctx)
    kw = {}
    if args is not None:
        kw['args'] = args
        ctx.count('with_arguments')
    if wn != 10000 or rng.random() < 0.5:
        kw['wn'] = wn
    if method != 'random' or rng.random() < 0.5:
        kw['method'] = method
    if invert != 'interpolate' or rng.random() < 0.5:
        kw['invert'] = invert
    ctx.case((kind, a, b, n, wn, method, invert), {'density': kind, 'interval': [a, b], 'n': n, 'wn': wn, 'method': method,
                                                   'invert': invert}, nontrivial=n > 1)
    np.random.seed(rng.randrange(2 ** 31))
    what = 'sample(n=%d, %s on [%g, %g], wn=%d, %s, %s)' % (n, kind, a, b, wn, method, invert)
    out = ctx.call(sample, n, f, a, b, **kw)
    if not ctx.expect_ok(out, 'sample', what):
        return
    ctx.count('samples', n)
    ctx.count(method)
    ctx.count(invert)
    with ctx.oracle('sample'):
        s = np.asarray(out.value)
        if not ctx.check(s.shape == (n,), 'sample-shape', what + ' has shape %s' % (s.shape,)):
            return
        ctx.check(bool(np.all((s >= a) & (s <= b))), 'sample-range', lambda: what + ' gives values from %r to %r' % (s.min(), s.max()))
        u = np.sort(cdf(s))
        grid = np.linspace(a, b, wn)
        w = f(grid, *given(args))
        cell = float(np.max(w) / np.sum(w))
        dist = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
        bound = (np.log2(n) + 3) / n if method == 'halton' else 3.2 / np.sqrt(n)
        bound += 2.5 * cell
        ctx.count('tight_bounds', int(bound < 0.02))
        ctx.check(dist <= bound, 'sample-distribution', lambda: what + ': distance from the density %g, bound %g' % (dist, bound))
        if method == 'random' and 2.5 * cell < 0.02:
            FIRST.append([float(v) for v in cdf(s[[0, n // 2, n - 1]])])
        if invert == 'numeric':
            i = np.searchsorted(grid, s)
            ctx.check(bool(np.all(grid[np.minimum(i, wn - 1)] == s)), 'sample-grid', what + ': values are not on the grid')
        ctx.hold('results-kept', 'another sample', out.value if n <= 5000 else out.value[:5000])
        if n >= 100 and invert == 'interpolate':
            ctx.check(len(np.unique(s)) > (0.9 - 2 * cell) * n, 'sample-repeats', what + ': values repeat')


FIRST = []


def positions(ctx):
    """The first, middle and last of the samples of many calls follow the density as well."""
    u = np.sort(np.array(FIRST), axis=0)
    n = len(u)
    ctx.count('positions', n)
    for k, name in enumerate(['first', 'middle', 'last']):
        d = max(np.max(np.arange(1, n + 1) / n - u[:, k]), np.max(u[:, k] - np.arange(n) / n))
        ctx.check(d <= 3.2 / np.sqrt(n) + 0.02, 'sample-position', lambda: 'the %s samples of %d calls: distance from the density %g' % (name, n, d))


def coarse(ctx):
    """Numeric inversion on few grid points: each is drawn as often as its share of the weights says."""
    from rsbeams.rsstats.sample import sample
    rng = ctx.rng
    wn = rng.choice([2, 3, 5, 8, 17, 40])
    a = rng.choice([0.0, -1.0, rng.uniform(-1e3, 1e3)])
    b = a + rng.choice([1.0, 10.0 ** rng.uniform(-3, 6)])
    x = np.linspace(a, b, wn)
    w = ctx.np.uniform(0, 1, wn) ** rng.choice([1, 4])
    if wn > 2 and rng.random() < 0.4:
        w[rng.sample(range(wn), rng.randint(1, wn - 1))] = 0.0
    if w.sum() == 0 or rng.random() < 0.2:
        w[rng.choice([0, -1])] = 2.0
    table = dict(zip(x.tolist(), w.tolist()))
    f = lambda v: np.array([table[t] for t in v.tolist()])
    n, method = 20000, rng.choice(['random', 'halton'])
    np.random.seed(rng.randrange(2 ** 31))
    ctx.case(('coarse', w.tobytes(), method), {'grid points': wn, 'weights': w.tolist(), 'method': method})
    ctx.count('coarse')
    out = ctx.call(sample, n, f, a, b, wn=wn, method=method, invert='numeric')
    what = 'sample(n=%d, %d grid points, %s, numeric)' % (n, wn, method)
    if not ctx.expect_ok(out, 'sample-coarse', what):
        return
    with ctx.oracle('sample-coarse'):
        s = np.asarray(out.value)
        got = np.array([np.sum(s == v) for v in x])
        ctx.check(s.shape == (n,) and got.sum() == n, 'sample-grid', what + ': values are not on the grid')
        p = w / w.sum()
        bad = np.abs(got - n * p) > 7 * np.sqrt(n * p * (1 - p)) + 20 * (p > 0) + 1e-9
        k = int(np.argmax(bad))
        ctx.check(not bad.any(), 'sample-coarse', lambda: what + ': point %d of weight %g is drawn %d times' % (k, p[k], got[k]))


def seeded(ctx):
    """Random samples depend on the NumPy seed only; different seeds give different samples."""
    from rsbeams.rsstats.sample import sample
    kind, f, args, a, b, cdf = densities(ctx)
    kw = {} if args is None else {'args': args}
    seed = ctx.rng.randrange(2 ** 31)
    res = []
    for s in (seed, seed + 1, seed):
        np.random.seed(s)
        out = ctx.call(sample, 50, f, a, b, **kw)
        if not ctx.expect_ok(out, 'sample', 'sample'):
            return
        res.append(snapshot(np.asarray(out.value)))
    ctx.case(('seed', seed, kind), {'density': kind, 'seed': seed})
    ctx.count('seeds')
    ctx.check(res[0] == res[2] and res[0] != res[1], 'sample-seed', 'samples do not follow the seed')


def grid(ctx):
    from rsbeams.rsstats.sample import cdf_on_grid
    kind, f, args, a, b, cdf = densities(ctx)
    n = ctx.rng.choice([1, 2, 5, 100, 1000])
    x = np.linspace(a, b, n) if ctx.rng.random() < 0.5 else np.sort(ctx.np.uniform(a, b, n))
    ctx.case(('grid', kind, n, a, b, args is None), {'density': kind, 'points': n, 'arguments': args})
    ctx.count('grids')
    kw = {} if args is None else {'args': args}
    if args is not None and ctx.rng.random() < 0.3:
        out = ctx.call(cdf_on_grid, f, x, args, frozen=(x,))
    else:
        out = ctx.call(cdf_on_grid, f, x, frozen=(x,), **kw)
    if ctx.expect_ok(out, 'grid', 'cdf_on_grid'):
        with ctx.oracle('grid'):
            w = f(x, *given(args)).astype(np.longdouble)
            want = (np.cumsum(w) / np.sum(w)).astype(float)
            got = np.asarray(out.value, dtype=float)
            ctx.check(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-13 * max(n, 10)), 'grid',
                      'cdf_on_grid(%s, %d points) is %s' % (kind, n, got[:4]))
            ctx.hold('results-kept', 'another cumulative distribution', out.value)
            ctx.check(got[-1] <= 1 + 1e-12 and bool(np.all(np.diff(got) >= 0)), 'grid', 'CDF is not increasing to one')


def refused(ctx):
    from rsbeams.rsstats.sample import sample
    f = np.ones_like
    for args, kw in (((5, 3.0, 0, 1), {}), ((5, None, 0, 1), {}), ((5, f, 0, 1), {'method': 'sobol'}),
                     ((5, f, 0, 1), {'invert': 'spline'})):
        out = ctx.call(sample, *args, **kw)
        ctx.case(('refused', str(args[1]), tuple(kw.items())))
        ctx.count('refused')
        ctx.check(isinstance(out.error, Exception), 'sample-accepted', 'sample(%s, %s) is accepted' % (args, kw))


def run(ctx):
    rng = ctx.rng
    for i in ctx.cases(160, 2000):
        method = rng.choice(['random', 'halton'])
        draw(ctx, rng.choice([1, 2, 7, 100, 1024, 4096, 10000, 30000]), rng.choice([60, 500, 2000, 10000, 10000, 20000]), method,
             'numeric' if rng.random() < 0.35 else 'interpolate')
    for i in ctx.cases(4, 40):
        draw(ctx, 100000, 10000, ['random', 'halton'][i % 2], ['interpolate', 'numeric'][i // 2 % 2])
    for i in ctx.cases(250, 2000):
        draw(ctx, rng.choice([1, 2, 3, 10]), 2000, 'random', rng.choice(['interpolate', 'numeric']))
    positions(ctx)
    for i in ctx.cases(30, 400):
        coarse(ctx)
    for i in ctx.cases(20, 200):
        seeded(ctx)
    for i in ctx.cases(80, 1000):
        grid(ctx)
    refused(ctx)
