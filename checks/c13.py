"""C13: Twiss matched 6D beams."""
import math

import numpy as np

from mon.ptcls import worst

MODULES = ['rsbeams.rsptcls.RsPtclBeam6D', 'rsbeams.rsptcls.RsDistrib6D', 'rsbeams.rsptcls.RsTwiss2D', 'rsbeams.rsstats.stats6d']
TECHNIQUE = 'reference model: moments of the generated particles computed by definition in extended precision'
RULE = ('Beams of 8 to thousands of particles, both shapes, with random Twiss parameters in the three planes (alpha of either '
        'sign and zero, beta equal to, above and below gamma, beta+gamma up to 1e4, emittances 1e-14 to 10); the moments are '
        'computed from the particle array by definition and compared with the request and with the Twiss parameters that the '
        'package computes; then offsets and factors are applied in random order.  Non-trivial: alpha is not zero; distinct by '
        'Twiss parameters.')
ASSUMPTIONS = ['at least 8 particles', 'precision limited by eps*(beta+gamma)^2 of the matching transformation']
DEPTH = 1
REQUIRE = {'planes': 200, 'shapes': 4, 'alpha_negative': 40, 'beta_below_gamma': 40, 'beta_above_gamma': 40, 'equal': 10, 'refused': 6, 'second_beams': 20, 'calls_repeated_later': 20}
L = np.longdouble
PLANES = 'xyz'


def twiss(ctx):
    rng = ctx.rng
    k = rng.random()
    if k < 0.12:
        al = rng.choice([-1, 1]) * rng.choice([0.5, 1.0, 2.5])
        be = math.sqrt(1 + al * al)
        if rng.random() < 0.3:
            al, be = 0.0, 1.0
    elif k < 0.22:
        al, be = 0.0, 10 ** rng.uniform(-3, 3)
    else:
        be = 10 ** rng.uniform(-3, 3)
        al = rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 1.2)
        if (1 + al * al) / be + be > 1e4:
            be = 10 ** rng.uniform(-1, 2)
    if rng.random() < 0.1:
        al = float(round(al))
    elif rng.random() < 0.08:
        al, be = rng.choice([-1, 1]) * 10 ** rng.uniform(-5.5, -4), 10 ** rng.uniform(-0.5, 0.5)
    em = rng.choice([1.0, 1e-6, 10 ** rng.uniform(-14, 1)])
    return al, be, em


def moments(a):
    x = a.astype(L)
    m = x.mean(axis=1)
    d = x - m[:, None]
    return m.astype(float), (d @ d.T / x.shape[1]).astype(float)


def matched(ctx, a, planes, what):
    m, cov = moments(a)
    for k, (al, be, em) in enumerate(planes):
        ga = (1 + al * al) / be
        rel = 1e-14 * (be + ga) ** 2 + 1e-10
        want = em * np.array([[be, -al], [-al, ga]])
        got = cov[2 * k:2 * k + 2, 2 * k:2 * k + 2]
        off = rel * math.sqrt(be * ga) + 3e-8 * (be + ga)   # sin(phi) from 1 - cos(2 phi) in double precision
        tol = em * np.array([[rel * be, off], [off, rel * ga]])
        ctx.count('planes')
        ctx.check(bool(np.all(np.abs(got - want) <= tol)), 'twiss', lambda: '%s: second moments of plane %s are %s, '
                  'requested alpha=%g beta=%g emittance=%g: %s' % (what, PLANES[k], got.tolist(), al, be, em, want.tolist()))
        rms = np.sqrt(np.diag(want))
        ctx.check(bool(np.all(np.abs(m[2 * k:2 * k + 2]) <= 1e-9 * rms)), 'mean', lambda: '%s: averages of plane %s are %s (rms %s)'
                  % (what, PLANES[k], m[2 * k:2 * k + 2], rms))
    # planes are not correlated with each other
    s = np.sqrt(np.diag(cov))
    for i in range(6):
        for j in range(i):
            if i // 2 != j // 2:
                bound = 1e-9 * math.sqrt(max(1, *(be + (1 + al * al) / be for al, be, _ in planes)))
                ctx.check(abs(cov[i, j]) <= 10 * bound * s[i] * s[j], 'coupling', lambda: '%s: coordinates %d and %d are correlated: %g'
                          % (what, i, j, cov[i, j] / s[i] / s[j]))


def beam(ctx):
    from rsbeams.rsptcls import RsPtclBeam6D
    rng = ctx.rng
    planes = [twiss(ctx) for _ in range(3)]
    tw = ['twiss_' + p for p in PLANES]
    n = rng.choice([8, 9, 12, 20, 50, 100])
    shape = rng.choice(['uniform', 'gaussian'])
    fac = rng.choice([1, 3.0, 5.0, 25.0])
    p0, q, mass = 10 ** rng.uniform(4, 12), rng.choice([1e-9, -1e-12, 1.0]), rng.choice([0.511e6, 938.27e6])
    for al, be, _ in planes:
        ga = (1 + al * al) / be
        ctx.count('alpha_negative', int(al < 0))
        ctx.count('beta_below_gamma' if be < ga * (1 - 1e-9) else 'beta_above_gamma' if be > ga * (1 + 1e-9) else 'equal')
    ctx.case((tuple(planes), n, shape, fac), {'alpha, beta, emittance': planes, 'particles': n, 'type': shape, 'max_rms_fac': fac},
             nontrivial=any(p[0] for p in planes))
    out = ctx.call(RsPtclBeam6D.RsPtclBeam6D, n, p0, q, mass, shape, fac, *(v for p in planes for v in p))
    what = '%s beam of %d particles' % (shape, n)
    if not ctx.expect_ok(out, 'create', what):
        return
    if rng.random() < 0.4:
        # a second beam, often of as many particles
        more = [v for _ in range(3) for v in twiss(ctx)]
        ctx.count('second_beams')
        if not ctx.expect_ok(ctx.call(RsPtclBeam6D.RsPtclBeam6D, rng.choice([n, n, 8, 30]), 2 * p0, 3 * q, mass, rng.choice([shape, 'gaussian']), fac, *more),
                             'create', 'a second beam'):
            return
    with ctx.oracle('beam'):
        b = out.value
        dist = b.get_distrib6d()
        ps = dist.get_phase_space_6d()
        a = np.asarray(ps.get_array_6d())
        if not ctx.check(a.shape == (6, n) and ps.get_num_ptcls() == n and bool(np.all(np.isfinite(a))), 'shape',
                         '%s: array of shape %s' % (what, a.shape)):
            return
        matched(ctx, a, planes, what)
        bg = p0 / mass
        ga = math.sqrt(1 + bg * bg)
        for name, want in (('get_design_p_ev', p0), ('get_total_charge_c', q), ('get_mass_ev', mass), ('get_beta0_gamma0', bg),
                           ('get_gamma0', ga), ('get_beta0', bg / ga)):
            got = getattr(b, name)()
            ctx.check(abs(got - want) <= 1e-14 * abs(want), 'reference', '%s() is %r, expected %r' % (name, got, want))
        m, cov = moments(a)
        want = q / (math.sqrt(cov[4, 4]) / (bg / ga * 299792458.0))
        got = b.get_peak_current_rms()
        ctx.check(abs(got - want) <= 1e-10 * abs(want), 'current', 'get_peak_current_rms() is %r, expected %r' % (got, want))
        for k, (al, be, em) in enumerate(planes):
            t = b.get_twiss2d_by_name('twiss_' + PLANES[k])
            ctx.check((t.get_alpha_rms(), t.get_beta_rms(), t.get_emit_rms()) == (al, be, em), 'twiss-given',
                      'twiss_%s holds %r, given %r' % (PLANES[k], (t.get_alpha_rms(), t.get_beta_rms(), t.get_emit_rms()), (al, be, em)))
        before = a.copy()
        for _ in range(2):
            o = ctx.call(b.calc_twiss6d)
            if not ctx.expect_ok(o, 'calc', 'calc_twiss6d'):
                return
            ctx.check(np.array_equal(before, b.get_distrib6d().get_phase_space_6d().get_array_6d()), 'calc-mutates',
                      'calc_twiss6d changes the particles')
            computed(ctx, {p: b.get_twiss2d_by_name('twiss_' + p) for p in PLANES}, cov)
        change(ctx, dist)
        ps = dist.get_phase_space_6d()
        ctx.hold('results-kept', 'the particles of another beam', ps.get_array_6d())
        ctx.again('results-kept', 'state of another beam', lambda: (
            np.array(b.get_distrib6d().get_phase_space_6d().get_array_6d()), b.get_design_p_ev(), b.get_total_charge_c(), b.get_beta0_gamma0(),
            [(t.get_alpha_rms(), t.get_beta_rms(), t.get_emit_rms(), t.get_gamma_rms()) for t in map(b.get_twiss2d_by_name, tw)]))


def computed(ctx, tw, cov):
    for k, p in enumerate(PLANES):
        c = cov[2 * k:2 * k + 2, 2 * k:2 * k + 2].astype(L)
        em = float(np.sqrt(c[0, 0] * c[1, 1] - c[0, 1] ** 2))
        be, al, ga = float(c[0, 0]) / em, -float(c[0, 1]) / em, float(c[1, 1]) / em
        rel = 1e-11 + 1e-13 * be * ga
        t = tw[p]
        got = (t.get_alpha_rms(), t.get_beta_rms(), t.get_gamma_rms(), t.get_emit_rms())
        ctx.count('computed')
        ctx.check(abs(got[0] - al) <= rel * (1 + abs(al)) and abs(got[1] / be - 1) <= rel and abs(got[2] / ga - 1) <= 2 * rel
                  and abs(got[3] / em - 1) <= rel, 'calc', lambda: 'calc_twiss6d: plane %s is %s, by definition %s' % (p, got, (al, be, ga, em)))


def change(ctx, dist):
    """Offsets and factors act on one coordinate, by exactly the amount given."""
    rng = ctx.rng
    for _ in range(rng.choice([0, 2, 5])):
        a = np.array(dist.get_phase_space_6d().get_array_6d())
        k = rng.randrange(6)
        v = rng.choice([-1, 1]) * 10 ** rng.uniform(-8, 3)
        add = rng.random() < 0.6
        out = ctx.call(dist.offset_component if add else dist.multiply_component, v, k)
        if not ctx.expect_ok(out, 'change', 'offset_component / multiply_component(%r, %d)' % (v, k)):
            return
        want = a.copy()
        want[k] = a[k] + v if add else a[k] * v
        got = np.asarray(dist.get_phase_space_6d().get_array_6d())
        ctx.count('changes')
        ctx.check(np.array_equal(got, want), 'change', lambda: '%s by %r of coordinate %d: %s' % ('offset' if add else 'factor', v, k, worst(got, want)))
        m, cov = moments(want)
        for name, ref in (('calc_averages_6d', m), ('calc_rms_values_6d', np.sqrt(np.diag(cov)))):
            o = ctx.call(getattr(dist, name), frozen=(got,))
            if ctx.expect_ok(o, 'calc', name):
                tol = 1e-12 * np.abs(want).max(axis=1) + 1e-9 * np.sqrt(np.diag(cov))
                ctx.check(bool(np.all(np.abs(np.asarray(o.value) - ref) <= tol)), 'calc', lambda: '%s is %s' % (name, worst(o.value, ref)))


def truncated(fac):
    """Fourth moment of a normal distribution, cut where x*x reaches fac, with deviation one."""
    x = np.linspace(-1, 1, 200001) * min(math.sqrt(fac), 12)
    w = np.exp(-x * x / 2)
    w /= w.sum()
    return float((x ** 4 * w).sum() / (x ** 2 * w).sum() ** 2)


def radii(shape, fac):
    """Squared 6D radii of a distribution of the shape asked for with unit deviations, ordered: an own sample of a million."""
    if (shape, fac) not in RADII:
        g = np.random.Generator(np.random.PCG64(7))
        if shape == 'uniform':
            r2 = 5 * sum(g.random(1000000) ** (2 / 3) for _ in range(2))      # two balls
        else:
            x = g.standard_normal(9000000 if fac >= 1 else 40000000)
            x = x[x * x < fac][:6000000].reshape(6, -1)
            r2 = (x * x).sum(axis=0) / x.var()
        RADII[shape, fac] = np.sort(r2)
    return RADII[shape, fac]


RADII = {}


def distribution(ctx, n, check_shape=None):
    """The normalised distribution: zero mean, unit deviations, no correlations, and the shape asked for."""
    from rsbeams.rsptcls import RsDistrib6D
    rng = ctx.rng
    shape = check_shape or rng.choice(['uniform', 'gaussian'])
    fac = rng.choice([1.0, 4.0, 9.0, 25.0, 100]) if check_shape else rng.choice([0.5, 1, 3.0, 9])
    ctx.case(('distribution', shape, n, fac, ctx.evaluations), {'type': shape, 'particles': n, 'max_rms_fac': fac})
    out = ctx.call(RsDistrib6D.RsDistrib6D, n, shape, fac)
    if not ctx.expect_ok(out, 'create', 'RsDistrib6D'):
        return
    ctx.count('distributions')
    with ctx.oracle('distribution'):
        d = out.value
        ctx.check(d.get_distrib_type() == shape and d.get_max_rms_fac() == fac, 'given', 'type or max_rms_fac changed')
        a = np.asarray(d.get_phase_space_6d().get_array_6d())
        m, cov = moments(a)
        ctx.check(a.shape == (6, n) and bool(np.all(np.abs(m) < 1e-10)) and bool(np.all(np.abs(cov - np.eye(6)) < 1e-9)), 'normalised',
                  lambda: '%s distribution of %d particles: averages %s, covariances %s' % (shape, n, m, cov.round(12).tolist()))
        if check_shape:
            r2 = (a ** 2).sum(axis=0)
            k = float((r2 ** 2).mean())
            want = 39.43 if shape == 'uniform' else 6 * (truncated(fac) + 5)
            spread = float((r2 ** 2).std()) / math.sqrt(n)
            ctx.count('shapes')
            ctx.check(abs(k - want) < 6 * spread + 0.02 * want, 'distribution-shape', '%s distribution has mean r^4 %.2f, expected %.2f' % (shape, k, want))
            # The radii do not depend on the rotation that removed the correlations: Kolmogorov-Smirnov, chance 1e-10
            ref = radii(shape, fac)
            s = np.sort(r2)
            got = np.searchsorted(s, ref, side='right') / n
            ks = float(np.abs(got - (np.arange(len(ref)) + 1) / len(ref)).max())
            limit = 3.45 * math.sqrt(1 / n + 1 / len(ref))
            ctx.check(ks < limit, 'distribution-shape', '%s distribution (max_rms_fac %g): radii differ from those expected by %.4f (at most %.4f by chance)' % (shape, fac, ks, limit))
            # Both distributions are symmetric: third moments vanish but for the number of particles
            third = np.einsum('in,jn,kn->ijk', a, a, a, optimize=True) / n
            noise = float((r2 ** 3).mean()) / n
            ctx.check(float((third ** 2).sum()) < 2 * noise, 'distribution-symmetry', '%s distribution is not symmetric: squared third moments %.3g, expected %.3g by chance'
                      % (shape, (third ** 2).sum(), noise))
            if shape == 'uniform':
                ctx.check(r2.max() < 10.5, 'distribution-shape', 'uniform distribution reaches r^2=%.2f, at most 10 expected' % r2.max())


def refused(ctx):
    from rsbeams.rsptcls import RsDistrib6D
    for args in ((10, 'waterbag', 3.0), (10, '', 3.0), (10, 'uniform', 0.0), (10, 'gaussian', -1.0), (0, 'uniform', 3.0), (-5, 'gaussian', 3.0)):
        ctx.case(('refused', args), {'arguments': args})
        out = ctx.call(RsDistrib6D.RsDistrib6D, *args)
        ctx.count('refused')
        ctx.check(isinstance(out.error, Exception), 'accepted', 'RsDistrib6D%r is accepted' % (args,))
    out = ctx.call(RsDistrib6D.RsDistrib6D, 8, 'uniform', 3.0)
    if out.ok:
        for k in (-1, 6):
            for f in ('offset_component', 'multiply_component'):
                ctx.case(('refused', f, k))
                o = ctx.call(getattr(out.value, f), 2.0, k)
                ctx.check(isinstance(o.error, Exception), 'accepted', '%s(2, %d) is accepted' % (f, k))


def run(ctx):
    for i in ctx.cases(120, 2500):
        beam(ctx)
    for i in ctx.cases(30, 300):
        distribution(ctx, ctx.rng.choice([8, 10, 30, 100]))
    for i in ctx.cases(2, 10):
        for shape in ('uniform', 'gaussian'):
            distribution(ctx, 30000, shape)
    refused(ctx)
