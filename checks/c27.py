"""C27: settings of the nonlinear insert."""
import math
import re

MODULES = ['rsbeams.rslattice.nonlinear']
TECHNIQUE = 'reference monitor: slices against the closed form of the optics, phase integral, and a new insert after histories of setters'
RULE = ('Lengths from 1e-6 to 1e5 m, phases in (0, 0.5) and other multiples, t of both signs and 0, c from 1e-6 to 1e3, 1 to 2000 slices; histories of '
        'attribute changes, refused values and repeated generation.  Non-trivial: more than one slice; distinct by parameters.')
ASSUMPTIONS = ['phases closer than 1e-6 to multiples of 0.5 have no finite optics']
REQUIRE = {'inserts': 500, 'slices': 5000, 'refused': 20, 'histories': 200, 'elements': 2000, 'cases_at_once': 80, 'results_kept': 300}


def params(ctx):
    rng = ctx.rng
    mu = rng.choice([0.3, 0.25, 0.25, rng.uniform(0.01, 0.49), rng.uniform(0.01, 0.49), 10 ** rng.uniform(-5, -1), 0.5 - 10 ** rng.uniform(-5, -1)])
    return {'length': rng.choice([1, 2.0, 1.8, 10 ** rng.uniform(-6, 5), rng.uniform(0.1, 10)]), 'phase': mu,
            't': rng.choice([0.1, 0, -0.2, 0.45, 1, rng.uniform(-1, 1), 10 ** rng.uniform(-9, 3)]),
            'c': rng.choice([0.01, 0.009, 1, 0.0 if rng.random() < 0.2 else 0.02, 10 ** rng.uniform(-6, 3)]),
            'num_slices': rng.choice([1, 2, 3, 5, 20, 20, 21, rng.randrange(1, 200), rng.randrange(1, 2000) if rng.random() < 0.2 else 7])}


def model(np, p):
    """Drift with waist in its centre: beta = b + x^2/b, with 2 atan(L / 2b) = 2 pi phase."""
    L, n = float(p['length']), p['num_slices']
    s = np.array([(i + 0.5) * L / n for i in range(n)])
    half = math.tan(math.pi * p['phase'])
    b = abs(L / 2 / half)
    betas = b + (s - L / 2) ** 2 / b
    return s, betas, p['t'] * p['c'] ** 2 * L / n / betas, p['c'] * np.sqrt(betas), b + L * L / 4 / b


def verify(ctx, ins, p, what):
    import numpy as np
    with ctx.oracle('slices'):
        s, betas, knll, cnll, beta0 = model(np, p)
        # conditioning: 1 - cos(2 pi phase)^2 and the waist are differences of nearly equal numbers
        mu = abs(p['phase']) % 0.5
        tol = 1e-11 + 1e-14 / min(mu, 0.5 - mu) ** 2
        for name, want in (('s_vals', s), ('betas', betas), ('knll', knll), ('cnll', cnll)):
            got = np.asarray(getattr(ins, name))
            if not ctx.check(got.shape == want.shape, name, '%s: %s has shape %s, expected %s' % (what, name, got.shape, want.shape)):
                return
            t = 1e-12 if name == 's_vals' else tol
            ctx.check(np.all(np.abs(got - want) <= t * np.abs(want) + (1e-12 * abs(p['length']) if name == 's_vals' else 0)), name,
                      '%s: %s is %s, expected %s' % (what, name, got[:5], want[:5]))
        ctx.check(abs(ins.beta0 - beta0) <= tol * beta0, 'beta0', '%s: beta0 %r, expected %r' % (what, ins.beta0, beta0))
        ctx.count('slices', len(s))
        # relations between the outputs
        want = p['t'] * p['c'] ** 2 * p['length'] / p['num_slices']
        ctx.check(np.allclose(np.asarray(ins.knll) * ins.betas, want, rtol=1e-11, atol=0), 'knll', '%s: knll times beta is not constant' % what)
        ctx.check(np.allclose(np.asarray(ins.betas), np.asarray(ins.betas)[::-1], rtol=tol + 1e-11), 'symmetry', '%s: not symmetric' % what)
        if p['num_slices'] >= 20 and 0 < p['phase'] < 0.45 and p['t'] and p['c']:
            total = float(np.sum(ins.knll)) / (p['t'] * p['c'] ** 2)
            peak = p['length'] / p['num_slices'] / np.min(betas)
            ctx.check(abs(total - 2 * math.pi * p['phase']) <= (0.1 * peak ** 2 + 1e-9) * total + 10 * tol * total, 'phase',
                      '%s: phase advance of the slices %r, expected %r' % (what, total, 2 * math.pi * p['phase']))
    out = ctx.call(ins.create_madx)
    if ctx.expect_ok(out, 'madx', what):
        with ctx.oracle('madx'):
            ctx.check(len(out.value) == p['num_slices'], 'madx', '%s: %d elements' % (what, len(out.value)))
            for i, e in enumerate(out.value):
                m = re.fullmatch(r'\s*nllens\s*,\s*knll\s*=\s*(\S+?)\s*,\s*cnll\s*=\s*(\S+?)\s*;\s*', e)
                if ctx.check(m, 'madx', '%s: element %r' % (what, e)):
                    k, c = float(m[1]), float(m[2])
                    ctx.check(abs(k - ins.knll[i]) <= 1e-15 * abs(k) and abs(c - ins.cnll[i]) <= 1e-15 * abs(c), 'madx-text',
                              '%s: element %d is %r, but the arrays hold knll %r cnll %r' % (what, i, e, ins.knll[i], ins.cnll[i]))
                    ctx.check(abs(k - knll[i]) <= tol * abs(knll[i]) and abs(c - cnll[i]) <= tol * cnll[i], 'madx',
                              '%s: element %d is %r, expected knll %r cnll %r' % (what, i, e, knll[i], cnll[i]))
                    ctx.count('elements')


def case(ctx):
    from rsbeams.rslattice.nonlinear import NonlinearInsert
    rng = ctx.rng
    p = params(ctx)
    if rng.random() < 0.1:
        p['phase'] += rng.choice([1, 2, 0.5])
    ctx.case(sorted(p.items()), p, nontrivial=p['num_slices'] > 1)
    args = dict(p)
    what = 'insert %s' % p
    # defaults
    for k, d in (('t', 0.1), ('c', 0.01), ('num_slices', 20)):
        if p[k] == d and rng.random() < 0.5:
            del args[k]
    if len(args) == 5 and rng.random() < 0.3:
        out = ctx.call(NonlinearInsert, *[p[k] for k in ('length', 'phase', 't', 'c', 'num_slices')])
    else:
        out = ctx.call(NonlinearInsert, **args)
    if not ctx.expect_ok(out, 'new', what):
        return
    ins = out.value
    ctx.count('inserts')
    yield
    if not ctx.expect_ok(ctx.call(ins.generate_sequence), 'generate', what):
        return
    verify(ctx, ins, p, what)
    yield
    if rng.random() < 0.5:
        ctx.count('histories')
        trace = []
        for _ in range(rng.choice([1, 2, 5])):
            k = rng.choice(list(p))
            v = params(ctx)[k]
            trace.append((k, v))
            if not ctx.expect_ok(ctx.call(setattr, ins, k, v), 'set', '%s = %r' % (k, v)):
                return
            p[k] = v
            ctx.check(getattr(ins, k) == v, 'set', '%s is %r after setting %r' % (k, getattr(ins, k), v))
            # what was generated stays consistent until it is generated again
            out = ctx.call(ins.create_madx)
            if ctx.expect_ok(out, 'madx', what):
                with ctx.oracle('madx'):
                    ctx.count('not_yet_generated')
                    got = [[float(x) for x in re.findall(r'=\s*([^\s,;]+)', e)] for e in out.value]
                    ctx.check(got == [[float(a), float(b)] for a, b in zip(ins.knll, ins.cnll)], 'madx-text',
                              '%s after %s: elements are not those of the arrays' % (p, trace))
            if rng.random() < 0.3:
                bad = -10 ** rng.uniform(-9, 3)
                ctx.count('refused')
                out = ctx.call(setattr, ins, 'c', bad)
                ctx.check(isinstance(out.error, ValueError), 'refused', 'c = %r is %s' % (bad, out.why() if not out.ok else 'accepted'))
                ctx.check(ins.c == p['c'], 'refused', 'c is %r after a refused value, expected %r' % (ins.c, p['c']))
            if rng.random() < 0.5:
                if not ctx.expect_ok(ctx.call(ins.generate_sequence), 'generate', '%s after %s' % (p, trace)):
                    return
                verify(ctx, ins, p, '%s after %s' % (p, trace))
            yield
        if not ctx.expect_ok(ctx.call(ins.generate_sequence), 'generate', '%s after %s' % (p, trace)):
            return
        verify(ctx, ins, p, '%s after %s' % (p, trace))
    if rng.random() < 0.3 and p['num_slices'] < 300:
        ctx.hold('slices-kept', 'the slices of another insert', ins.s_vals, ins.betas, ins.knll, ins.cnll, ins.length, ins.phase, ins.t, ins.c)
    if rng.random() < 0.05:
        ctx.count('refused')
        out = ctx.call(NonlinearInsert, p['length'], p['phase'], c=-abs(p['c']) - 1e-9)
        ctx.check(isinstance(out.error, ValueError), 'refused', 'an insert with negative c is %s' % (out.why() if not out.ok else 'accepted'))


def run(ctx):
    for i in ctx.cases(400, 9000):
        ctx.interleave(case)
