"""C15: standard bunches."""
import re

import numpy as np

from mon.bunches import Pool, companion, meanwhile, angle, normal_cdf, normalised

MODULES = ['rsbeams.rsptcls.bunch']
TECHNIQUE = 'invariant monitor on every particle generated, pooled distribution tests, and a shadow model of bunch parameters'
RULE = ('Random bunch parameters (emittance 1e-16..1e2, beta 1e-4..1e4, alpha of either sign, 1 to 4000 particles) and histories of '
        'setters, transverse and longitudinal generation; after each operation the parameters are compared with a shadow model '
        'and the particles with the invariant, the distribution and the columns that must not have changed.  Non-trivial: '
        'particles were generated; distinct by parameters and history.')
REQUIRE = {'generations': 60, 'setters': 60, 'kv_particles': 5000, 'gaussian_particles': 5000, 'longitudinal': 30, 'printed': 5,
           'refused': 10, 'companions': 50, 'results_kept': 300}


def parameters(ctx):
    rng = ctx.rng
    p = {'betax': 10 ** rng.uniform(-4, 4), 'alphax': rng.choice([0.0, rng.uniform(-5, 5), rng.uniform(-0.1, 0.1), rng.uniform(-50, 50)]),
         'betay': 10 ** rng.uniform(-4, 4), 'alphay': rng.choice([0.0, rng.uniform(-5, 5), rng.uniform(-0.1, 0.1)]),
         'emitx': 10 ** rng.uniform(-16, 2), 'emity': 10 ** rng.uniform(-16, 2),
         'stdz': rng.choice([0, 1.0, 10 ** rng.uniform(-9, 3)]), 'dpop': rng.choice([0, 10 ** rng.uniform(-6, 0)])}
    if rng.random() < 0.3:
        p['betax'], p['alphax'] = float(rng.choice([1, 2, 10])), rng.choice([0, 1, -1])
    return p


def transverse(ctx, b, m, pool, fresh):
    p = b.particles
    what = '%s bunch of %d with %s' % (m['dist'], m['npart'], {k: m[k] for k in m if k not in ('dist', 'npart')})
    x, px, y, py = normalised(p, m['betax'], m['alphax'], m['betay'], m['alphay'])
    n = m['npart']
    if m['dist'] == 'KV':
        ctx.count('kv_particles', n)
        h = 0.5 * (x * x + px * px + y * y + py * py)
        want = 4 * m['emitx']
        tol = 1e-13 * (1 + m['alphax'] ** 2 + m['alphay'] ** 2) * 30
        ctx.check(np.all(np.abs(h - want) <= tol * want), 'shell', 'invariant is %r..%r, expected %r for %s' % (h.min(), h.max(), want, what))
        ctx.check(b.emit == want, 'emit', 'emit is %r after KV, expected %r' % (b.emit, want))
        ham = b.compute_Hamiltonian(x, px, y, py)
        ctx.check(np.allclose(ham, h, rtol=1e-12, atol=0) and np.allclose(b.compute_potential(x, y), 0.5 * (x * x + y * y), rtol=1e-12, atol=0),
                  'hamiltonian', 'compute_Hamiltonian or compute_potential is not that of the linear lattice')
        if fresh:
            k = slice(None, None, 4 if m['quiet'] else 1)
            h2 = 2 * want
            pool.add('KV share of x plane', ((x * x + px * px) / h2)[k], what)
            pool.add('KV share of positions', ((x * x + y * y) / h2)[k], what)
            for a, nm in ((x, 'x'), (px, 'px'), (y, 'y'), (py, 'py')):
                s = np.clip(a / np.sqrt(2 * want), -1, 1)[k]
                pool.add('KV normalised ' + nm, 0.5 + (s * np.sqrt(1 - s * s) + np.arcsin(s)) / np.pi, what)
            pool.add('KV x angle', angle(px, x)[k], what)
            pool.add('KV y angle', angle(py, y)[k], what)
            pool.add('KV position angle', angle(y, x)[k], what)
            pool.add('KV angle difference', ((angle(py, y) - angle(px, x)) % 1.0)[k], what)
    else:
        ctx.count('gaussian_particles', n)
        gx, gy = (1 + m['alphax'] ** 2) / m['betax'], (1 + m['alphay'] ** 2) / m['betay']
        sig = np.sqrt([m['emitx'] * m['betax'], m['emitx'] * gx, m['emity'] * m['betay'], m['emity'] * gy])
        u = p[:, :4] / sig
        if fresh:
            for j, nm in enumerate(('x', 'xp', 'y', 'yp')):
                pool.add('Gaussian ' + nm, normal_cdf(u[:, j]), what)
                pool.add('Gaussian %s and %s' % (nm, (j + 1) % 4), normal_cdf((u[:, j] + u[:, (j + 1) % 4]) / np.sqrt(2)), what)
            pool.add('Gaussian x and y', normal_cdf((u[:, 0] + u[:, 2]) / np.sqrt(2)), what)


def case(ctx, pool):
    from rsbeams.rsptcls.bunch import StandardBunch
    rng = ctx.rng
    m = parameters(ctx)
    m['dist'] = rng.choice(['Gaussian', 'KV'])
    m['quiet'] = rng.random() < 0.25
    n = rng.choice([1, 2, 3, 5, 10, 100, 1000, 1000, 4000])
    if m['quiet']:
        n = max(4, n // 4 * 4)
    if m['dist'] == 'KV':
        m['emity'] = m['emitx']
    m['npart'] = n
    kw = {k: m[k] for k in m if k not in ('npart', 'dist', 'quiet')}
    if rng.random() < 0.5:
        kw['seed'] = rng.randrange(10 ** 6)
    args = (n, m['dist'])
    out = ctx.call(StandardBunch, *args, quiet=m['quiet'], **kw)
    if not ctx.expect_ok(out, 'create', 'StandardBunch'):
        return
    b = out.value
    trace = []
    other = companion(ctx, StandardBunch, n, m['dist'], m['quiet'], parameters(ctx)) if rng.random() < 0.4 else None
    for _ in range(rng.choice([1, 3, 6])):
        k = rng.randrange(5)
        before = b.particles.copy()
        if k <= 1:
            change = {}
            for q in rng.sample(['betax', 'alphax', 'betay', 'alphay', 'emit'], rng.choice([0, 0, 1, 2])):
                v = parameters(ctx)
                if q != 'emit':
                    change[q] = v[q]
                elif m['dist'] == 'KV':
                    change['emitx'] = change['emity'] = v['emitx']
                else:
                    e = rng.choice(['emitx', 'emity'])
                    change[e] = v[e]
            m.update(change)
            out = ctx.call(b.set_transverse_coordinates, **change)
            if not ctx.expect_ok(out, 'transverse', 'set_transverse_coordinates(%s)' % change):
                return
            ctx.count('generations')
            with ctx.oracle('particles'):
                ctx.check(b.particles.shape == (n, 7) and np.all(np.isfinite(b.particles)), 'particles', 'shape %s or not finite' % (b.particles.shape,))
                ctx.check(np.array_equal(b.particles[:, 4:], before[:, 4:]), 'columns', 'transverse generation changes longitudinal columns')
                ctx.check(not np.array_equal(b.particles[:, :4], before[:, :4]), 'particles', 'no new particles')
                transverse(ctx, b, m, pool, True)
            trace.append(('transverse', tuple(change)))
        elif k == 2:
            change = {q: parameters(ctx)[q] for q in rng.sample(['stdz', 'dpop'], rng.choice([0, 1, 2]))}
            m.update(change)
            out = ctx.call(b.set_longitudinal_coordinates, **change)
            if not ctx.expect_ok(out, 'longitudinal', 'set_longitudinal_coordinates'):
                return
            ctx.count('longitudinal')
            with ctx.oracle('longitudinal'):
                ctx.check(np.array_equal(b.particles[:, :4], before[:, :4]) and np.array_equal(b.particles[:, 6], before[:, 6]), 'columns',
                          'longitudinal generation changes other columns')
                for j, q in ((4, 'stdz'), (5, 'dpop')):
                    if m[q] == 0:
                        ctx.check(not np.any(b.particles[:, j]), 'longitudinal', '%s=0 gives nonzero coordinates' % q)
                    else:
                        pool.add('longitudinal ' + q, normal_cdf(b.particles[:, j] / m[q]), '%s=%r' % (q, m[q]))
                if m['stdz'] and m['dpop'] and n >= 20:
                    pool.add('z and dpop', normal_cdf((b.particles[:, 4] / m['stdz'] + b.particles[:, 5] / m['dpop']) / np.sqrt(2)), 'bunch')
            trace.append(('longitudinal', tuple(change)))
        elif k == 3:
            q = rng.choice(['betax', 'alphax', 'betay', 'alphay'])
            v = parameters(ctx)[q]
            ctx.count('setters')
            if q.startswith('beta') and rng.random() < 0.2:
                v = rng.choice([-v, 0, 0.0, np.float64(0)])
                ctx.count('refused')
                out = ctx.call(setattr, b, q, v)
                ctx.check(isinstance(out.error, (ValueError, ZeroDivisionError)), 'accepted', '%s = %r is accepted' % (q, v))
                out = ctx.call(StandardBunch, n, **{q: v})
                ctx.check(isinstance(out.error, (ValueError, ZeroDivisionError)), 'accepted', 'StandardBunch(%s=%r) is accepted' % (q, v))
            else:
                m[q] = v
                out = ctx.call(setattr, b, q, v)
                if not ctx.expect_ok(out, 'setter', '%s = %r' % (q, v)):
                    return
            ctx.check(np.array_equal(b.particles, before), 'columns', 'setting %s changes particles' % q)
            trace.append((q, v))
        else:
            out = ctx.call(b.print_Twiss)
            if ctx.expect_ok(out, 'print', 'print_Twiss'):
                with ctx.oracle('print'):
                    ctx.count('printed')
                    got = {a: float(v) for a, v in re.findall(r'^(\w+) : (\S+)$', out.stdout, re.M)}
                    want = {q: m[q] for q in ('betax', 'betay', 'alphax', 'alphay')}
                    want['gammax'], want['gammay'] = (1 + m['alphax'] ** 2) / m['betax'], (1 + m['alphay'] ** 2) / m['betay']
                    ctx.check(set(got) == set(want) and all(abs(got[q] - want[q]) <= 1e-13 * abs(want[q]) for q in want), 'print',
                              'print_Twiss prints %s, expected %s' % (got, want))
            trace.append(('print',))
        with ctx.oracle('state'):
            for q in ('betax', 'alphax', 'betay', 'alphay', 'emitx', 'emity', 'stdz', 'dpop', 'npart', 'dist', 'quiet'):
                ctx.check(getattr(b, q) == m[q], 'state', '%s is %r, expected %r after %s' % (q, getattr(b, q), m[q], trace[-1]))
            ctx.check(np.array_equal(b.particles[:, 6], np.arange(n)), 'ids', 'particle numbers are not 0..%d after %s' % (n - 1, trace[-1]))
        if other is not None:
            meanwhile(ctx, b, other)
        if ctx.violations:
            break
    ctx.hold('results-kept', 'the particles of another bunch', b.particles)
    ctx.case((tuple(trace), repr(m)), {'parameters': m, 'history': trace}, nontrivial=bool(np.any(b.particles[:, :6])))


def defaults(ctx, pool):
    """Parameters left out take their documented defaults, and keywords and positions mean the same."""
    from rsbeams.rsptcls.bunch import StandardBunch
    want = {'dist': 'Gaussian', 'emitx': 1e-6, 'emity': 1e-6, 'betax': 1., 'alphax': 0., 'betay': 1., 'alphay': 0., 'stdz': 1., 'dpop': 0,
            'quiet': False, 'npart': 3}
    b = ctx.call(StandardBunch, 3).value
    ctx.case(('defaults',), {'defaults': want})
    with ctx.oracle('defaults'):
        for k, v in want.items():
            ctx.check(getattr(b, k) == v, 'defaults', 'default of %s is %r' % (k, getattr(b, k)))
    n = 500
    b = ctx.call(StandardBunch, n, 'KV', 2e-6, 2e-6, 3.0, -1.5, 0.5, 0.7, 0.01, 0.002).value
    m = dict(zip(('npart', 'dist', 'emitx', 'emity', 'betax', 'alphax', 'betay', 'alphay', 'stdz', 'dpop'),
                 (n, 'KV', 2e-6, 2e-6, 3.0, -1.5, 0.5, 0.7, 0.01, 0.002)), quiet=False)
    if ctx.expect_ok(ctx.call(b.set_transverse_coordinates), 'transverse', 'set_transverse_coordinates'):
        with ctx.oracle('particles'):
            transverse(ctx, b, m, pool, True)
    if ctx.expect_ok(ctx.call(b.set_longitudinal_coordinates), 'longitudinal', 'set_longitudinal_coordinates'):
        with ctx.oracle('particles'):
            pool.add('longitudinal stdz', normal_cdf(b.particles[:, 4] / 0.01), 'bunch')
            pool.add('longitudinal dpop', normal_cdf(b.particles[:, 5] / 0.002), 'bunch')
    b = StandardBunch(8, 'KV', emitx=1e-6, emity=2e-6)
    ctx.count('refused')
    ctx.check(isinstance(ctx.call(b.set_transverse_coordinates).error, Exception), 'accepted', 'KV with unequal emittances is accepted')
    b = StandardBunch(8, 'KV')
    ctx.check(isinstance(ctx.call(b.set_transverse_coordinates, emitx=1e-5).error, Exception), 'accepted', 'KV with unequal emittances is accepted')


def run(ctx):
    pool = Pool(ctx)
    for i in ctx.cases(5, 20):
        defaults(ctx, pool)
    for i in ctx.cases(350, 4000):
        case(ctx, pool)
    pool.finish()
