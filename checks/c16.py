"""C16: bunches matched to the elliptic nonlinear insert."""
import re

import numpy as np
from scipy.stats import ks_2samp, nbinom

from mon.bunches import Pool, angle, companion, elliptic, meanwhile, normal_cdf, normalised

MODULES = ['rsbeams.rsptcls.bunch']
TECHNIQUE = ('invariant monitor on every particle generated against the complex form of the potential, distribution tests against an '
             'independent sampler, and a shadow model of bunch parameters')
RULE = ('Random strengths t in [0, 0.45], apertures c (1e-6..10), emittances between 1e-4 and 10 times c^2, beta, alpha, cutoffs, '
        'quiet starts, and histories of setters and generations.  Each particle has its invariant computed from the coordinates; '
        'per case and pooled over cases the distribution of invariant, momentum direction and coordinates is tested.  Non-trivial: '
        'particles were generated; distinct by parameters and history.')
DEPTH = 2
REQUIRE = {'generations': 60, 'KV': 2000, 'waterbag': 1000, 'Gaussian': 1000, 'potentials': 300, 'setters': 40, 'printed': 60, 'refused': 6, 'defaults': 2,
           'two_sample_tests': 60, 'companions': 20, 'results_kept': 200}
P_MIN = 1e-10


def reference(ctx, dist, n, emit, t, c, cutoff):
    """Normalised x, y, |p| of particles by rejection, vectorised."""
    r = ctx.np
    if dist == 'KV':
        h = np.full(n, emit)
    elif dist == 'waterbag':
        h = emit * np.sqrt(r.uniform(size=n))
    else:
        h = np.empty(0)
        while len(h) < n:
            e = r.exponential(size=(2, 2 * n)).sum(axis=0)
            h = np.concatenate([h, e[e <= cutoff] * emit])
        h = h[:n]
    ymax = np.full(n, np.sqrt(2 * h.max()))
    for _ in range(60):
        if np.all(elliptic(0, ymax, t, c) >= h.max()):
            break
        ymax *= 1.2
    x, y, v = np.zeros(n), np.zeros(n), np.full(n, np.inf)
    todo = np.arange(n)
    while len(todo):
        x[todo] = r.uniform(-c, c, len(todo))
        y[todo] = r.uniform(-1, 1, len(todo)) * ymax[todo]
        v[todo] = elliptic(x[todo], y[todo], t, c)
        todo = todo[~(v[todo] < h[todo])]
    p, a = np.sqrt(2 * (h - v)), r.uniform(0, 2 * np.pi, n)
    return x, p * np.cos(a), y, p * np.sin(a)


def examine(ctx, b, m, pool):
    p, n, c, t = b.particles, m['npart'], m['c'], m['t']
    what = '%s nonlinear bunch with %s' % (m['dist'], {k: m[k] for k in m if k != 'dist'})
    ctx.count(m['dist'], n)
    bx = m['betax']
    x, px, y, py = normalised(p, bx, m['alphax'], bx, m['alphay'])
    ctx.check(np.all(np.abs(x) <= c * (1 + 1e-12)), 'pole', 'particles at |x| = %r beyond the pole %r: %s' % (np.abs(x).max(), c, what))
    v = elliptic(x, y, t, c)
    h = 0.5 * (px * px + py * py) + v
    emit = m['emitx'] if m['dist'] == 'KV' else m['emitx'] + m['emity']
    d = 1e-14 * (np.abs(x) + np.abs(y))
    with np.errstate(all='ignore'):
        cond = sum(np.abs(elliptic(x + i * d, y + j * d, t, c) - v) for i, j in ((1, 0), (-1, 0), (0, 1), (0, -1)))
    tol = 1e-9 * emit + cond + 1e-13 * t * c * c + 1e-13 * (1 + m['alphax'] ** 2 + m['alphay'] ** 2) * emit * 10
    k = slice(None, None, 4 if m['quiet'] else 1)
    if m['dist'] == 'KV':
        ctx.check(np.all(np.abs(h - emit) <= tol), 'shell', 'invariant is %r..%r, expected %r: %s' % (h.min(), h.max(), emit, what))
    else:
        top = 1.0 if m['dist'] == 'waterbag' else m['cutoff']
        ctx.check(np.all(h <= top * emit + tol * max(1, top)) and np.all(h >= -tol), 'boundary', 'invariant is %r..%r of %r, limit %r: %s'
                  % (h.min(), h.max(), emit, top * emit, what))
        s = np.clip(h[k] / emit, 0, top)
        if m['dist'] == 'waterbag':
            pool.add('waterbag invariant', s ** 2, what)
        else:
            pool.add('Gaussian invariant', np.clip((1 - (1 + s) * np.exp(-s)) / (1 - (1 + top) * np.exp(-top)), 0, 1), what)
    pool.add('momentum direction of ' + m['dist'], angle(py, px)[k], what)
    wantemit = emit
    ctx.check(b.emit == wantemit, 'emit', 'emit is %r afterwards, expected %r: %s' % (b.emit, wantemit, what))
    ham = b.compute_Hamiltonian(x, px, y, py)
    ok = np.isfinite(ham)
    ctx.check(np.all(np.abs(ham - h)[ok] <= (tol + 1e-12 * t * c * c)[ok]) and np.mean(ok) > 0.9, 'hamiltonian',
              'compute_Hamiltonian differs from the invariant for %s' % what)
    if n >= 100:
        ref = reference(ctx, m['dist'], 4000, emit, t, c, m['cutoff'])
        names = ('x', 'px', 'y', 'py')
        for i, (a, q) in enumerate(zip((x, px, y, py), ref)):
            ctx.count('two_sample_tests')
            pv = ks_2samp(a[k], q, method='asymp').pvalue
            ctx.check(pv > P_MIN, 'distribution', 'distribution of normalised %s: p=%.2g: %s' % (names[i], pv, what))
            for sign in (1, -1):
                mine = sign * a[k]
                far = int(np.sum(sign * q[:len(mine)] > mine.max()))
                ctx.tails.setdefault(('+' if sign > 0 else '-') + names[i] + ' of ' + m['dist'], []).append(far)
        pv = ks_2samp(np.abs(x + y)[k], np.abs(ref[0] + ref[2]), method='asymp').pvalue
        ctx.check(pv > P_MIN, 'distribution', 'distribution of x+y: p=%.2g: %s' % (pv, what))


def ratio(rng):
    """Emittance in units of c squared."""
    return 10 ** (rng.uniform(-5, -2.5) if rng.random() < 0.15 else rng.uniform(-2.5, 0.7))


def parameters(ctx):
    rng = ctx.rng
    c = rng.choice([0.01, 10 ** rng.uniform(-6, 1)])
    return {'t': rng.choice([0, 0.1, rng.uniform(0, 0.45), 0.45, 1e-3]), 'c': c, 'cutoff': rng.choice([4, 0.5, 1, 2.5, 9]),
            'betax': 10 ** rng.uniform(-3, 3), 'alphax': rng.choice([0.0, rng.uniform(-5, 5), 20.0]),
            'alphay': rng.choice([0.0, rng.uniform(-5, 5)]), 'r': (ratio(rng), rng.choice([1, 0.3, 3])),
            'stdz': 10 ** rng.uniform(-9, 3), 'dpop': rng.choice([0, 1e-3])}


def case(ctx, pool):
    from rsbeams.rsptcls.bunch import NonlinearBunch
    rng = ctx.rng
    v = parameters(ctx)
    m = {k: v[k] for k in ('t', 'c', 'cutoff', 'betax', 'alphax', 'alphay', 'stdz', 'dpop')}
    m['dist'] = rng.choice(['KV', 'waterbag', 'Gaussian'])
    m['emitx'] = m['emity'] = v['c'] ** 2 * v['r'][0]
    if m['dist'] != 'KV':
        m['emity'] *= v['r'][1]
    m['quiet'] = rng.random() < 0.25
    n = rng.choice([1, 2, 3, 5, 10, 100, 400, 400] if v['r'][0] > 3e-3 else [1, 2, 5, 10, 20])
    if m['quiet']:
        n = max(4, n // 4 * 4)
    m['npart'] = n
    kw = {k: m[k] for k in m if k not in ('npart', 'dist', 'quiet')}
    kw['betay'] = kw['betax']
    if rng.random() < 0.5:
        kw['seed'] = rng.randrange(10 ** 6)
    out = ctx.call(NonlinearBunch, n, m['dist'], quiet=m['quiet'], **kw)
    if not ctx.expect_ok(out, 'create', 'NonlinearBunch'):
        return
    b = out.value
    trace = []
    other = None
    if rng.random() < 0.4 and n <= 100:
        w = parameters(ctx)
        kw = {k: w[k] for k in ('t', 'c', 'cutoff', 'betax', 'alphax', 'alphay', 'stdz', 'dpop')}
        other = companion(ctx, NonlinearBunch, n, m['dist'], m['quiet'], dict(kw, betay=kw['betax'], emitx=w['c'] ** 2 / 9, emity=w['c'] ** 2 / 9))
    for step in range(rng.choice([1, 2, 4])):
        before = b.particles.copy()
        k = rng.randrange(5) if step else 0
        if k <= 1:
            change = {}
            for q in rng.sample(['betax', 'alphax', 'cutoff', 'emit'], rng.choice([0, 0, 1, 2])):
                if q != 'emit':
                    change[q] = parameters(ctx)[q]
                else:
                    e = m['c'] ** 2 * (10 ** rng.uniform(-2.5, 0.7) if n > 20 else ratio(rng))
                    for z in (['emitx', 'emity'] if m['dist'] == 'KV' or rng.random() < 0.5 else [rng.choice(['emitx', 'emity'])]):
                        change[z] = e
            m.update(change)
            out = ctx.call(b.set_transverse_coordinates, steps=200_000_000, **change)
            if not ctx.expect_ok(out, 'transverse', 'set_transverse_coordinates(%s) of %s' % (change, m)):
                return
            ctx.count('generations')
            with ctx.oracle('particles'):
                ctx.check(b.particles.shape == (n, 7) and np.all(np.isfinite(b.particles)), 'particles', 'shape or not finite')
                ctx.check(np.array_equal(b.particles[:, 4:], before[:, 4:]), 'columns', 'transverse generation changes longitudinal columns')
                examine(ctx, b, m, pool)
            trace.append(('transverse', tuple(change)))
        elif k == 2:
            out = ctx.call(b.set_longitudinal_coordinates)
            if not ctx.expect_ok(out, 'longitudinal', 'set_longitudinal_coordinates'):
                return
            with ctx.oracle('longitudinal'):
                ctx.check(np.array_equal(b.particles[:, :4], before[:, :4]), 'columns', 'longitudinal generation changes other columns')
                pool.add('z', normal_cdf(b.particles[:, 4] / m['stdz']), 'stdz=%r' % m['stdz'])
                if m['dpop']:
                    pool.add('dpop', normal_cdf(b.particles[:, 5] / m['dpop']), 'dpop')
                else:
                    ctx.check(not np.any(b.particles[:, 5]), 'longitudinal', 'dpop=0 gives nonzero coordinates')
            trace.append(('longitudinal',))
        else:
            q = rng.choice(['betax', 'betay', 'alphax', 'alphay', 't', 'c', 'cutoff'])
            ctx.count('setters')
            if q in ('betax', 'betay', 't', 'c', 'cutoff') and rng.random() < 0.25:
                bad = rng.choice([-1e-3, 0, 0.0, -1e9]) if q.startswith('beta') else rng.choice([-1e-3, -1e-9, -5])
                out = ctx.call(setattr, b, q, bad)
                ctx.count('refused')
                ctx.check(isinstance(out.error, ValueError), 'accepted', '%s = %r is accepted' % (q, bad))
                out = ctx.call(type(b), 4, m['dist'], **{q: bad})
                ctx.check(isinstance(out.error, ValueError), 'accepted', 'a bunch with %s = %r is accepted' % (q, bad))
            else:
                val = m['c'] * rng.uniform(0.7, 1.5) if q == 'c' else parameters(ctx)[q.replace('betay', 'betax')]
                out = ctx.call(setattr, b, q, val)
                if not ctx.expect_ok(out, 'setter', '%s = %r' % (q, val)):
                    return
                m[q.replace('betay', 'betax')] = val
            ctx.check(np.array_equal(b.particles, before), 'columns', 'setting %s changes particles' % q)
            trace.append((q,))
        out = ctx.call(b.print_Twiss)
        if ctx.expect_ok(out, 'print', 'print_Twiss'):
            with ctx.oracle('print'):
                got = {a: float(z) for a, z in re.findall(r'^(\w+) : (\S+)$', out.stdout, re.M)}
                want = {'betax': m['betax'], 'betay': m['betax'], 'alphax': m['alphax'], 'alphay': m['alphay']}
                want['gammax'], want['gammay'] = (1 + m['alphax'] ** 2) / m['betax'], (1 + m['alphay'] ** 2) / m['betax']
                ctx.check(set(got) == set(want) and all(abs(got[q] - want[q]) <= 1e-13 * abs(want[q]) for q in want), 'print',
                          'print_Twiss prints %s, expected %s after %s' % (got, want, trace))
                ctx.count('printed')
        with ctx.oracle('state'):
            for q in ('betax', 'alphax', 'alphay', 'emitx', 'emity', 'stdz', 'dpop', 'npart', 'dist', 'quiet', 't', 'c', 'cutoff'):
                ctx.check(getattr(b, q) == m[q], 'state', '%s is %r, expected %r after %s' % (q, getattr(b, q), m[q], trace[-1]))
            ctx.check(b.betay == m['betax'], 'state', 'betay is not betax')
            ctx.check(np.array_equal(b.particles[:, 6], np.arange(n)), 'ids', 'particle numbers are not 0..%d after %s' % (n - 1, trace[-1]))
        if other is not None:
            meanwhile(ctx, b, other)
        if ctx.violations:
            break
    ctx.hold('results-kept', 'the particles of another bunch', b.particles)
    ctx.case((tuple(trace), repr(m)), {'parameters': m, 'history': trace}, nontrivial=bool(np.any(b.particles[:, :6])))


def defaults(ctx, pool):
    """Parameters left out take their documented defaults, and keywords and positions mean the same."""
    from rsbeams.rsptcls.bunch import NonlinearBunch
    rng = ctx.rng
    want = {'dist': 'KV', 'emitx': 1e-6, 'emity': 1e-6, 'betax': 1., 'alphax': 0., 'betay': 1., 'alphay': 0., 'stdz': 1., 'dpop': 0, 'npart': 300,
            'quiet': False, 't': 0.1, 'c': 0.01, 'cutoff': 4}
    for values in ({}, {k: want[k] for k in want if k not in ('npart', 'dist')}):
        m = dict(want)
        if not values:
            m['dist'] = rng.choice(['KV', 'waterbag', 'Gaussian'])
            b = ctx.call(NonlinearBunch, 300, m['dist']).value
        else:
            m.update(dist=rng.choice(['KV', 'waterbag', 'Gaussian']), emitx=3e-6, emity=3e-6, betax=2.5, betay=2.5, alphax=rng.uniform(-2, 2), alphay=rng.uniform(-2, 2),
                     stdz=0.02, dpop=1e-3, t=0.3, c=0.007, cutoff=2.5)
            b = ctx.call(NonlinearBunch, 300, m['dist'], *(m[k] for k in ('emitx', 'emity', 'betax', 'alphax', 'betay', 'alphay', 'stdz', 'dpop')), None, False,
                         m['t'], m['c'], m['cutoff']).value
        ctx.count('defaults')
        ctx.case(('defaults', repr(m)), {'parameters': m})
        with ctx.oracle('defaults'):
            for k, v in m.items():
                ctx.check(getattr(b, k) == v, 'defaults', '%s of NonlinearBunch is %r, expected %r' % (k, getattr(b, k), v))
            ctx.check(b.particles.shape == (300, 7), 'particles', 'array of shape %s' % (b.particles.shape,))
        if ctx.expect_ok(ctx.call(b.set_transverse_coordinates, steps=200_000_000), 'transverse', 'set_transverse_coordinates') and \
                ctx.expect_ok(ctx.call(b.set_longitudinal_coordinates), 'longitudinal', 'set_longitudinal_coordinates'):
            with ctx.oracle('particles'):
                examine(ctx, b, m, pool)
                pool.add('z', normal_cdf(b.particles[:, 4] / m['stdz']), 'stdz=%r' % m['stdz'])
                if m['dpop']:
                    pool.add('dpop', normal_cdf(b.particles[:, 5] / m['dpop']), 'dpop')
    ctx.check(ctx.call(NonlinearBunch, 4).value.dist == 'KV', 'defaults', 'the distribution is not KV unless given')


def potential(ctx):
    from rsbeams.rsptcls.bunch import NonlinearBunch
    v = parameters(ctx)
    c, t = v['c'], v['t']
    b = NonlinearBunch(4, t=t, c=c)
    r = ctx.np
    for x, y in ((r.uniform(-1, 1, 20) * c, r.uniform(-3, 3, 20) * c), (r.uniform(-3, 3, 20) * c, r.uniform(0.05, 3, 20) * c),
                 (r.uniform(-0.99, 0.99, 20) * c, r.uniform(-1, 1, 20) * 0.01 * c)):
        out = ctx.call(b.compute_potential, x, y, frozen=(x, y))
        if not ctx.expect_ok(out, 'potential', 'compute_potential'):
            return
        with ctx.oracle('potential'):
            want = elliptic(x, y, t, c)
            ctx.count('potentials', len(x))
            ctx.check(np.all(np.abs(out.value - want) <= 1e-9 * np.abs(want) + 1e-10 * t * c * c), 'potential',
                      'potential differs for t=%r, c=%r: %r, expected %r' % (t, c, out.value, want))
            one = ctx.call(b.compute_potential, float(x[0]), float(y[0])).value
            ctx.check(abs(one - want[0]) <= 1e-9 * abs(want[0]) + 1e-10 * t * c * c, 'potential', 'potential of scalars differs')
            ctx.case(('potential', t, c, x[0]), {'t': t, 'c': c, 'x': x[0], 'y': y[0]}, nontrivial=t != 0)
    b.emit = c * c * v['r'][0]
    w = ctx.call(b.whatsleft, c * 0.7)
    if ctx.expect_ok(w, 'potential', 'whatsleft'):
        ctx.check(abs(w.value - (b.emit - elliptic(0, c * 0.7, t, c))) <= 1e-9 * c * c, 'potential', 'whatsleft differs')


def run(ctx):
    pool = Pool(ctx)
    ctx.tails = {}
    for i in ctx.cases(20, 300):
        potential(ctx)
    for i in ctx.cases(3, 20):
        defaults(ctx, pool)
    for i in ctx.cases(220, 1500):
        case(ctx, pool)
    pool.finish()
    # the outermost particle of each case against as many reference particles: k of them are further out with a chance below 2^-k
    for name, far in ctx.tails.items():
        pv = float(nbinom.sf(sum(far) - 1, len(far), 0.5))
        ctx.count('tail_tests', len(far))
        ctx.check(pv > P_MIN, 'distribution', 'tail %s: reference particles further out: %d in %d cases, p=%.2g' % (name, sum(far), len(far), pv))
