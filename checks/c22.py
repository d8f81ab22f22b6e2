"""C22: transfer matrices of beamlines."""
import numpy as np

from mon.lattices import El, Line, compare, spelling

MODULES = ['rsbeams.rslattice.Beamline']
TECHNIQUE = 'reference monitor: matrices observed after each edit are compared with extended precision products of closed form matrices'
RULE = ('Random beamlines of drifts and quadrupoles in nested and repeated lines; strengths of either sign, zero, tiny and large, lengths from '
        'zero; numbers or named variables; with edits between calls and two beamlines at a time; concatenated or element by element.  '
        'Non-trivial: a quadrupole of nonzero strength; distinct by sequence and values.')
ASSUMPTIONS = ['variables have names that are identifiers', 'variable strengths are not evaluated at exactly zero']
REQUIRE = {'matrices': 60, 'element_matrices': 100, 'with_variables': 30, 'positional': 15, 'keywords': 15, 'edited': 50, 'zero_strength': 30,
           'defocusing': 60, 'lines': 30}
LD = np.longdouble


def plane(k, l):
    k, l = LD(k), LD(l)
    if k > 0:
        s = np.sqrt(k)
        return np.array([[np.cos(s * l), np.sin(s * l) / s], [-s * np.sin(s * l), np.cos(s * l)]])
    if k < 0:
        s = np.sqrt(-k)
        return np.array([[np.cosh(s * l), np.sinh(s * l) / s], [s * np.sinh(s * l), np.cosh(s * l)]])
    return np.array([[LD(1), l], [LD(0), LD(1)]])


def exact(e, values):
    v = {q: values.get(x, x) if isinstance(x, str) else x for q, x in e.p.items()}
    k = float(v['k1']) if e.type == 'quadrupole' else 0.0
    m = np.zeros((4, 4), dtype=LD)
    m[:2, :2], m[2:, 2:] = plane(k, float(v['l'])), plane(-k, float(v['l']))
    return m


def matrix_of(m):
    return np.array([[complex(m[i, j]) for j in range(4)] for i in range(4)])


WEAK = []  # lines of long, weak quadrupoles


def number(ctx, what):
    rng = ctx.rng
    if WEAK:
        return 10 ** rng.uniform(0, 2.5) if what == 'l' else rng.choice([-1, 1]) * 10 ** rng.uniform(-11, -6)
    if what == 'l':
        return rng.choice([0, 1, 0.5, 0.0, rng.uniform(0, 2), 2, 10 ** rng.uniform(-6, 0)])
    return rng.choice([0, 0.0, 1, -1, 2, rng.uniform(-3, 3), rng.uniform(-3, 3), rng.choice([-1, 1]) * 10 ** rng.uniform(-8, 1.2), np.float64(0.7)])


def build(ctx, use_vars):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    rng = ctx.rng
    bl, model = StructuredBeamline('m'), Line('m')
    vs = rng.sample(['kf', 'kd', 'lq', 'x', 'k1', 'l', '_a2', 'S', 'N', 'E', 'beta', 'pi', 'zeta', 'Q', 'gamma', 'I', 'K1', 'L'], 8) if use_vars else []

    chain = not use_vars and rng.random() < 0.2  # a long line without numbers that sympy keeps as symbols
    ctx.count('long_chains', int(chain))

    def val(what):
        if chain:
            return rng.uniform(0, 0.3) if what == 'l' else rng.choice([0.0, rng.uniform(-3, 3), rng.uniform(-3, 3)])
        return rng.choice(vs) if vs and rng.random() < 0.35 else number(ctx, what)

    def fill(a, b, depth):
        for _ in range(rng.choice([1, 2, 3, 4]) if depth or use_vars else ctx.size([9, 12, 20] if chain else [1, 2, 3, 4], 40)):
            if depth < 2 and rng.random() < 0.25:
                n = rng.choice(['c1', 'c2'])
                ctx.count('lines')
                new = n not in b.lines
                a.add_beamline(n)
                sub = b.line(n)
                if new:
                    fill(a.lines[n], sub, depth + 1)
            else:
                t = rng.choice(['drift', 'QUADRUPOLE', 'Quadrupole'])
                p = {}
                order = ['l', 'k1'] if t != 'drift' else rng.choice([['l'], ['l', 'k1']])
                if rng.random() < 0.5:
                    order = order[::-1]
                for q in order:
                    p[spelling(ctx, q)] = val(q)
                if rng.random() < 0.3:
                    p['N_KICKS'] = rng.choice([4, 'lots'])
                n = rng.choice(['a', 'b', 'c', 'd', 'e', 'f'])
                a.add_element(n, t, p)
                b.add(n, t, p)
    fill(bl, model, 0)
    return bl, model


def used(model):
    names = []
    for e in model.flat():
        for q, v in e.p.items():
            if q in ('l', 'k1') and isinstance(v, str) and v not in names:
                if e.type == 'quadrupole' or q == 'l' or True:
                    names.append(v)
    return names


def observe(ctx, bl, model):
    rng = ctx.rng
    flat = model.flat()
    names = used(model)
    concat = rng.choice([True, False, None])
    floats = all(type(v) is float for e in flat for q, v in e.p.items() if q in ('l', 'k1'))
    if len(flat) > (5 if names else 120 if floats else 8):
        concat = False  # products of symbolic matrices grow exponentially
    if len(flat) > (120 if floats else 40):
        return
    ctx.count('long_products', int(len(flat) > 8 and concat is not False))
    kw = {} if concat is None else {'concatenate': concat}
    what = 'matrix of %s' % [(e.type[0], e.p) for e in flat]
    ctx.case((repr([(e.type, e.p) for e in flat]), concat), {'elements': [(e.name, e.type, e.p) for e in flat], 'concatenate': concat},
             nontrivial=any(e.type == 'quadrupole' for e in flat))
    out = ctx.call(bl.generate_matrix, steps=200_000_000, **kw)
    if not ctx.expect_ok(out, 'generate', what):
        return
    compare(ctx, 'alters', bl, model, 'generate_matrix')
    ctx.count('zero_strength', sum(e.type == 'quadrupole' and e.p['k1'] == 0 for e in flat))
    ctx.count('defocusing', sum(e.type == 'quadrupole' and not isinstance(e.p['k1'], str) and e.p['k1'] < 0 for e in flat))
    with ctx.oracle('matrix'):
        for _ in range(2 if names else 1):
            values = {}
            if names:
                ctx.count('with_variables')
                fn, sym = out.value
                values = {n: rng.choice([0.3, rng.uniform(0.01, 2), 1.0, -0.4 if all(
                    e.p.get('l') != n for e in flat) else 0.4]) for n in names}
                how = rng.randrange(3)
                if how == 0:
                    ctx.count('keywords')
                    r = ctx.call(fn, **values)
                elif how == 1:
                    ctx.count('positional')
                    r = ctx.call(fn, *[values[n] for n in names])
                else:
                    from sympy import Symbol
                    sub = {Symbol(n): v for n, v in values.items()}
                    r = ctx.call(lambda: [matrix_of(m.subs(sub)) for m in sym] if isinstance(sym, list) else matrix_of(sym.subs(sub)))
                if not ctx.expect_ok(r, 'evaluate', 'evaluation of the %s at %s' % (what, values)):
                    return
                got = r.value
                got = [np.asarray(g) for g in got] if concat is False else [np.asarray(got)]
            else:
                got = [matrix_of(g) for g in out.value] if concat is False else [matrix_of(out.value)]
            mats = [exact(e, values) for e in flat]
            if concat is False:
                ctx.count('element_matrices', len(mats))
                want = mats
                scale = [np.max(np.abs(m)) for m in mats]
            else:
                ctx.count('matrices')
                total, s = np.eye(4, dtype=LD), 1.0
                for m in mats:
                    total = m @ total
                    s *= max(1.0, float(np.linalg.norm(m.astype(float), 2)))
                want, scale = [total], [s]
            if not ctx.check(len(got) == len(want) and all(g.shape == (4, 4) for g in got), 'matrix', '%s: %d matrices of shape %s, expected %d'
                             % (what, len(got), {g.shape for g in got}, len(want))):
                return
            for g, w, s in zip(got, want, scale):
                if not s < 1e250:
                    continue  # beyond the range of floating point numbers
                w = w.astype(float)
                ctx.check(bool(np.all(np.abs(g - w) <= 1e-11 * float(s))), 'matrix', lambda: '%s at %s: %s, expected %s'
                          % (what, values, np.real(g).tolist(), w.tolist()))
            if ctx.violations:
                return


def case(ctx):
    rng = ctx.rng
    WEAK[:] = [True] if rng.random() < 0.2 else []
    ctx.count('weak', len(WEAK))
    both = [build(ctx, rng.random() < 0.4) for _ in range(2)]
    for _ in range(rng.choice([2, 4])):
        bl, model = rng.choice(both)
        observe(ctx, bl, model)
        if ctx.violations:
            return
        if rng.random() < 0.6:
            ctx.count('edited')
            e = rng.choice(model.flat())
            q = rng.choice(['l', 'k1'])
            v = number(ctx, q)
            if q in e.p:
                bl.edit_element(e.name, spelling(ctx, q), v)
                for f in model.flat():
                    if f.name == e.name:
                        f.p[q] = v


def run(ctx):
    for i in ctx.cases(100, 1200):
        case(ctx)
