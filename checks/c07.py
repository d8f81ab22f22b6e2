"""C07: elegant particle files."""
import math

import numpy as np

from mon import sddsgen as g
from mon.ptcls import beam, close, describe, worst

MODULES = ['rsbeams.rsdata.switchyard', 'rsbeams.rsptcls.species']
TECHNIQUE = 'reference model: coordinate relations against independently decoded and encoded elegant files, round trips'
RULE = ('Random particle arrays (1 to thousands of particles, offsets, zeros, several memory layouts) are written in elegant '
        'format and decoded independently, elegant files from an independent encoder (shuffled columns, further columns '
        'and parameters, both modes) are read, and written files are read back, up to three times.  Non-trivial: particles '
        'are not all zero; distinct by first particle, size and charge.')
ASSUMPTIONS = ['total momentum is not zero', 'one page per file', 'slopes and momenta within double range']
REQUIRE = {'written': 150, 'foreign_files': 100, 'round_trips': 100, 'file_names_used_again': 50, 'results_kept': 100}
C = 299792458.0
NAMES = ['x', 'xp', 'y', 'yp', 't', 'p']


def to_elegant(a):
    e = np.array(a, dtype=float)
    e[:, 1] = a[:, 1] / a[:, 5]
    e[:, 3] = a[:, 3] / a[:, 5]
    e[:, 4] = a[:, 4] / C
    return e


def from_elegant(e):
    a = np.array(e, dtype=float)
    a[:, 1] = e[:, 1] * e[:, 5]
    a[:, 3] = e[:, 3] * e[:, 5]
    a[:, 4] = e[:, 4] * C
    return a


def charge(ctx):
    rng = ctx.rng
    v = rng.choice([0.0, 1e-9, -1e-9, 1e-15, 3.2e-19, 2.5, rng.uniform(-1, 1) * 1e-10])
    return rng.choice([v, np.float64(v), np.array(v)])


def written(ctx):
    from rsbeams.rsdata.switchyard import Switchyard
    from rsbeams.rsptcls.species import Species
    rng = ctx.rng
    a = beam(ctx, 3000 if rng.random() < 0.02 else None, 'any')
    q = charge(ctx)
    sp = Species(a, charge=rng.choice([-1, 1, 2]), mass=rng.choice([0.511e6, 938e6]), total_charge=q)
    sw = Switchyard()
    name = rng.choice(['species_0', 'beam', 'electrons'])
    sw.species[name] = sp
    path = ctx.path('.sdds')
    ctx.case((a[0].tobytes(), len(a), float(q)), dict(describe(a), charge=float(q)), nontrivial=bool(np.any(a[:, :5])))
    how = rng.random()
    if how < 0.4:
        out = ctx.call(sw.write, path, 'elegant', species_name=name, frozen=(a, sp))
    elif how < 0.7:
        out = ctx.call(sw.write, path, 'elegant', frozen=(a, sp))
    else:
        out = ctx.call(sw.write_elegant, path, name, frozen=(a, sp))
    if not ctx.expect_ok(out, 'elegant-write', 'writing %d particles in elegant format' % len(a)):
        return
    ctx.check(set(out.written) == {path}, 'elegant-write-files', 'files written: %s' % out.written)
    ctx.count('written')
    want = to_elegant(a)
    with ctx.oracle('elegant-file'):
        params, cols, _, (pvals, rows) = g.decode(open(path, 'rb').read())
        names = [c['name'] for c in cols]
        ctx.check(sorted(names) == sorted(NAMES), 'elegant-columns', 'columns are %s' % names)
        ctx.check(pvals['Charge'] == float(q), 'elegant-charge', 'Charge is %r, species has %r' % (pvals['Charge'], float(q)))
        ctx.check(len(rows) == len(a), 'elegant-rows', '%d particles in the file, species has %d' % (len(rows), len(a)))
        got = np.array(rows)
        for k, n in enumerate(NAMES):
            col = got[:, names.index(n)]
            ctx.check(close(col, want[:, k]), 'elegant-values', lambda: 'column %s is %s' % (n, worst(col, want[:, k])))
        ctx.check([p.get('units') for p in params if p['name'] == 'Charge'] == ['C'], 'elegant-units', 'Charge is written as %s' % params)
        units = {c['name']: c.get('units', '') for c in cols}
        ctx.check(units['x'] == units['y'] == 'm' and units['t'] == 's' and units['p'] == 'm$be$nc', 'elegant-units', 'units are %s' % units)
    # and back, repeatedly: the values do not drift away
    ref = a
    for k in range(rng.choice([1, 1, 3])):
        sw = Switchyard()
        out = ctx.call(sw.read, path, 'elegant')
        if not ctx.expect_ok(out, 'elegant-read', 'reading a file written in elegant format'):
            return
        with ctx.oracle('elegant-round-trip'):
            sp = sw.species['species_0']
            ctx.count('round_trips')
            same(ctx, sp, ref, float(q), 'elegant-round-trip', 1e-14)
        ctx.hold('results-kept', 'the particles of a species read before', sp.coordinates, sp.total_charge)
        ctx.drop(path)
        path = ctx.path('.sdds')
        if not ctx.expect_ok(ctx.call(sw.write, path, 'elegant'), 'elegant-write', 'writing particles just read'):
            return
    ctx.drop(path)


def same(ctx, sp, a, q, mech, rtol):
    c = np.asarray(sp.coordinates)
    ctx.check(close(c, a, rtol), mech, lambda: 'coordinates are %s' % worst(c, a))
    for k, n in enumerate(['x', 'ux', 'y', 'uy', 'ct', 'pt']):
        got = getattr(sp, n)
        ctx.check(close(got, a[:, k], rtol), mech, lambda: '%s is %s' % (n, worst(got, a[:, k])))
    ctx.check(sp.macroparticle_count == len(a), mech, 'macroparticle_count is %r' % (sp.macroparticle_count,))
    ctx.check(sp.charge == -1 and math.isclose(sp.mass, 0.511e6), mech + '-species', 'charge %r mass %r' % (sp.charge, sp.mass))
    ctx.check(np.shape(sp.total_charge) == () and float(sp.total_charge) == q, mech + '-charge',
              'total charge is %r, expected %r' % (sp.total_charge, q))


def foreign(ctx):
    """Files from another writer."""
    from rsbeams.rsdata import switchyard
    rng = ctx.rng
    a = beam(ctx, None, 'any')
    e = to_elegant(a)
    kinds = [rng.choice(['double', 'float']) if rng.random() < 0.3 else 'double' for _ in NAMES]
    for k, t in enumerate(kinds):
        if t == 'float':
            e[:, k] = e[:, k].astype(np.float32)
    ctx.count('float_columns', kinds.count('float'))
    doc = g.Doc()
    doc.mode = rng.choice(['binary', 'binary', 'ascii'])
    doc.no_row_counts = doc.mode == 'ascii' and rng.random() < 0.2
    cols = [(n, kinds[k], [float(v) for v in e[:, k]]) for k, n in enumerate(NAMES)]
    extra = rng.random() < 0.6
    if extra:
        cols.append(('particleID', 'long', range(1, len(a) + 1)))
        cols.append(('dt', 'double', ctx.np.normal(size=len(a))))
    if rng.random() < 0.7:
        rng.shuffle(cols)
    doc.cols = [g.describe(rng, n, t) for n, t, _ in cols]
    doc.params = [g.describe(rng, n, t) for n, t in (('Step', 'long'), ('pCentral', 'double'), ('Particles', 'long'),
                                                     ('PreviousElementName', 'string'),
                                                     ('charge', 'double'), ('PassCentralTime', 'double'), ('IDSlotsPerBunch', 'long'),
                                                     ('TotalCharge', 'double'), ('ChargePerParticle', 'float'))[:rng.randrange(10)]]
    rng.shuffle(doc.params)
    pv = {'Step': 1, 'pCentral': 1e-3, 'Particles': len(a), 'PreviousElementName': 'Q1', 'charge': 7.0, 'PassCentralTime': 3e-9,
          'IDSlotsPerBunch': 2, 'TotalCharge': 0.25, 'ChargePerParticle': 0.5}
    q = rng.choice([1e-9, 0.0, -2e-12, rng.uniform(0, 1)])
    has = rng.random() < 0.8
    if has:
        doc.params.insert(rng.randint(0, len(doc.params)), g.describe(rng, 'Charge', 'double'))
        pv['Charge'] = q
    for p in doc.params:
        if rng.random() < 0.15:
            p['fixed'] = pv[p['name']]  # given in the header
            ctx.count('charge_in_header', int(p['name'] == 'Charge'))
    cells = list(zip(*(c[2] for c in cols)))
    doc.pages = [({p['name']: pv[p['name']] for p in doc.params}, [tuple(r) for r in cells])]
    data, _ = g.encode(doc, rng)
    path = ctx.write(data, '.sdds')
    ctx.case((a[0].tobytes(), doc.mode, q, has, extra), dict(describe(a), mode=doc.mode, charge=q if has else None,
                                                         columns=[c['name'] for c in doc.cols]))
    ctx.count('foreign_files')
    ctx.count('without_charge', int(not has))
    out = ctx.call(switchyard.read_elegant, path)
    if ctx.expect_ok(out, 'elegant-read', 'reading an elegant file (%s, %d particles)' % (doc.mode, len(a))):
        with ctx.oracle('elegant-read'):
            same(ctx, out.value, from_elegant(e), q if has else 0.0, 'elegant-read', 2e-15)
            ctx.hold('results-kept', 'the particles of a species read before', out.value.coordinates, out.value.total_charge)
    ctx.drop(path)


def run(ctx):
    for i in ctx.cases(250, 4000):
        written(ctx)
    for i in ctx.cases(250, 4000):
        foreign(ctx)
