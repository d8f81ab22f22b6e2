"""C08: OPAL and Genesis files."""
import re

import numpy as np

from mon.ptcls import beam, close, describe, worst

MODULES = ['rsbeams.rsdata.switchyard', 'rsbeams.rsptcls.species']
TECHNIQUE = 'reference model: independently made HDF5 files and independent parsers of the written text files'
RULE = ('OPAL HDF5 files with random steps (numbers in any order, 0 included, other groups beside them) and particles are '
        'made with h5py and read with and without step number, also after further steps were added; Genesis and OPAL text files are written from random species '
        'and parsed independently.  Non-trivial: particles are not all zero; distinct by first particle and steps.')
ASSUMPTIONS = ['coordinates of species within double range']
REQUIRE = {'opal_read': 150, 'genesis_written': 100, 'opal_written': 100, 'step_selected': 40, 'not_last_in_file': 20, 'files_grown': 30, 'file_names_used_again': 50}
C = 299792458.0


def opal_read(ctx):
    import h5py
    from rsbeams.rsdata import switchyard
    rng = ctx.rng
    steps = rng.choice([[0], [1], [7], [0, 1], [9, 10], [2, 10, 100], [99, 100, 101], [5, 50, 6, 60], [10, 9],
                        rng.sample(range(200), 5), rng.sample(range(12), 12)])
    attr = rng.choice(['TotalCharge', 'CHARGE'])
    path = ctx.path('.h5')
    content = {}
    with h5py.File(path, 'w') as f:
        for s in steps:
            a = beam(ctx, rng.choice([1, 2, 3, 10, 50]), 'any')
            q = rng.choice([0.0, 1e-9, -3e-10, rng.uniform(-1, 1)])
            content[s] = a, q
            grp = f.create_group('Step#%d' % s)
            for k, n in enumerate(rng.sample(list(enumerate(['x', 'px', 'y', 'py', 'z', 'pz'])), 6)):
                grp.create_dataset(n[1], data=a[:, n[0]])
            if rng.random() < 0.5:
                grp.create_dataset('id', data=np.arange(len(a)))
                grp.create_dataset('time', data=a[:, 0] * 0 + 1.5)
            for n in ('q', 'mass', 'Bx', 'ct', 'pt', 'X'):
                if rng.random() < 0.15:
                    grp.create_dataset(n, data=np.linspace(0, 1, len(a)))
            for n in ('MASS', 'TIME', 'SPOS', 'STEP', 'charge', 'totalcharge', 'TotalMass', 'NumPart'):
                if rng.random() < 0.15:
                    grp.attrs[n] = rng.choice([0.5, 3, 1e-20])
            grp.attrs[attr] = q if rng.random() < 0.7 else np.array([q])[0]
            if attr == 'TotalCharge' and rng.random() < 0.3:
                grp.attrs['CHARGE'] = q + 1
        if rng.random() < 0.4:
            f.attrs['RefPartR'] = 1.0
            f.create_group(rng.choice(['ParticleData', 'Block', 'Attributes']))
    pick = rng.choice([None] + steps)
    use = max(steps) if pick is None else pick
    a, q = content[use]
    ctx.case((tuple(steps), pick, a[0].tobytes()), dict(describe(a), steps=steps, selected=pick, charge=q, attribute=attr))
    ctx.count('opal_read')
    ctx.count('step_selected', int(pick is not None))
    ctx.count('not_last_in_file', int(pick is None and sorted(map(str, steps))[-1] != str(max(steps))))
    kw = {} if pick is None and rng.random() < 0.7 else {'step_number': pick}
    sw = switchyard.Switchyard()
    if rng.random() < 0.5:
        out = ctx.call(sw.read, path, 'opal', species_name='s', **kw)
        sp = sw.species.get('s')
    else:
        out = ctx.call(switchyard.read_opal, path, **kw)
        sp = out.value
    if ctx.expect_ok(out, 'opal-read', 'reading step %s of an OPAL file with steps %s' % (pick, steps)):
        with ctx.oracle('opal-read'):
            c = np.asarray(sp.coordinates)
            ctx.check(close(c, a, 0), 'opal-coordinates', lambda: 'steps %s, selected %s: coordinates are %s' % (steps, pick, worst(c, a)))
            ctx.check(close(sp.ux, a[:, 1], 0) and close(sp.pt, a[:, 5], 0), 'opal-coordinates', 'momenta differ')
            ctx.check(float(sp.total_charge) == q, 'opal-charge', 'total charge is %r, file has %r' % (sp.total_charge, q))
            ctx.check(sp.charge == -1 and abs(sp.mass / 0.511e6 - 1) < 1e-9, 'opal-species', 'charge %r mass %r' % (sp.charge, sp.mass))
            ctx.check(sp.macroparticle_count == len(a), 'opal-count', 'macroparticle_count %r' % sp.macroparticle_count)
    if out.ok and rng.random() < 0.3:
        # the simulation goes on: a further step, and a dump of the last one under its old number
        late = max(steps) + rng.choice([1, 2, 90])
        a2 = beam(ctx, rng.choice([1, 3, 20]), 'any')
        with h5py.File(path, 'a') as f:
            f.copy('Step#%d' % max(steps), 'Step#%d' % late)
            grp = f['Step#%d' % late]
            for k, n in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
                del grp[n]
                grp[n] = a2[:, k]
        steps.append(late)
        ctx.count('files_grown')
        for kw2, want in (({}, a2), ({'step_number': use}, a)):
            again = ctx.call(switchyard.read_opal, path, **kw2)
            if ctx.expect_ok(again, 'opal-grown', 'reading an OPAL file to which a step was added'):
                with ctx.oracle('opal-grown'):
                    c = np.asarray(again.value.coordinates)
                    ctx.check(close(c, want, 0), 'opal-grown', lambda: 'step %d added to %s, read %s: coordinates are %s'
                              % (late, steps[:-1], kw2, worst(c, want)))
        with ctx.oracle('opal-grown'):
            ctx.check(close(np.asarray(sp.coordinates), a, 0), 'opal-grown', 'a species read before has changed')
    if out.ok:
        ctx.hold('results-kept', 'the particles of a species read before', sp.coordinates, sp.total_charge)
    missing = next(s for s in range(300) if s not in steps)
    out = ctx.call(switchyard.read_opal, path, step_number=missing)
    ctx.check(isinstance(out.error, Exception), 'opal-missing-step', 'step %d, which is not in the file, is read' % missing)
    with open(path, 'rb') as f:
        ctx.check(f.read(4) == b'\x89HDF', 'opal-file-changed', 'file is not intact')
    ctx.drop(path)


def species(ctx):
    from rsbeams.rsdata.switchyard import Switchyard
    from rsbeams.rsptcls.species import Species
    rng = ctx.rng
    a = beam(ctx, 2000 if rng.random() < 0.03 else None, 'any')
    q = rng.choice([0.0, 1e-9, 1.5e-10, -2e-9, rng.uniform(0, 1) * 1e-12])
    sp = Species(a, charge=-1, mass=0.511e6, total_charge=rng.choice([q, np.float64(q), np.array(q)]))
    sw = Switchyard()
    name = rng.choice(['species_0', 'b'])
    sw.species[name] = sp
    ctx.case((a[0].tobytes(), len(a), q), dict(describe(a), charge=q), nontrivial=bool(np.any(a)))
    return sw, name, sp, a, q


def genesis_write(ctx):
    rng = ctx.rng
    sw, name, sp, a, q = species(ctx)
    path = ctx.path('.txt')
    if rng.random() < 0.3:
        with open(path, 'w') as f:
            f.write('old content\n' * 50)
    version = rng.choice([None, '2.0', '0.1', '1.3.2', '4.06', '2', '10.25'])
    kw = {} if version is None else {'version': version}
    out = ctx.call(sw.write, path, 'genesis', species_name=name, frozen=(a, sp), **kw)
    if not ctx.expect_ok(out, 'genesis-write', 'writing %d particles for Genesis' % len(a)):
        return
    ctx.count('genesis_written')
    ctx.check(set(out.written) == {path}, 'genesis-files', 'files written: %s' % out.written)
    with ctx.oracle('genesis-file'):
        lines = open(path).read().split('\n')
        head = [ln for ln in lines if ln.startswith('?')]
        ctx.check(lines[:len(head)] == head, 'genesis-header', 'header is not in front: %s' % lines[:6])
        h = dict(re.match(r'\?\s*(\w+)\s*=?\s*(.*)', ln).groups() for ln in head)
        ctx.check(h.get('VERSION', '').strip() == (version or '2.0'), 'genesis-header', 'VERSION is %r' % h.get('VERSION'))
        ctx.check(float(h['CHARGE']) == q, 'genesis-header', 'CHARGE is %s, species has %r' % (h['CHARGE'], q))
        ctx.check(int(h['SIZE']) == len(a), 'genesis-header', 'SIZE is %s for %d particles' % (h['SIZE'], len(a)))
        cols = h['COLUMNS'].split()
        ctx.check(sorted(cols) == sorted(['X', 'PX', 'Y', 'PY', 'T', 'P']), 'genesis-header', 'COLUMNS is %s' % cols)
        rows = [[float(x) for x in ln.split()] for ln in lines[len(head):] if ln.strip()]
        ctx.check(len(rows) == len(a), 'genesis-rows', '%d rows for %d particles' % (len(rows), len(a)))
        got = np.array(rows)
        for col, k in (('X', 0), ('PX', 1), ('Y', 2), ('PY', 3), ('P', 5)):
            v = got[:, cols.index(col)]
            ctx.check(close(v, a[:, k], 0), 'genesis-values', lambda: 'column %s is %s' % (col, worst(v, a[:, k])))
        t = a[:, 4] / C
        want = t - np.mean(np.array(t, dtype=np.longdouble)).astype(float)
        v = got[:, cols.index('T')]
        tol = 8e-16 * max(8, len(a)) * np.max(np.abs(t)) if len(a) else 0
        ctx.check(close(v, want, 1e-14, tol), 'genesis-time', lambda: 'column T is %s' % worst(v, want))
    ctx.drop(path)


def opal_write(ctx):
    sw, name, sp, a, q = species(ctx)
    path = ctx.path('.txt')
    out = ctx.call(sw.write, path, 'opal', species_name=name, frozen=(a, sp))
    if not ctx.expect_ok(out, 'opal-write', 'writing %d particles for OPAL' % len(a)):
        return
    ctx.count('opal_written')
    ctx.check(set(out.written) == {path}, 'opal-files', 'files written: %s' % out.written)
    with ctx.oracle('opal-file'):
        lines = [ln for ln in open(path).read().split('\n') if ln.strip()]
        ctx.check(int(lines[0]) == len(a), 'opal-count', 'first line is %r for %d particles' % (lines[0], len(a)))
        got = np.array([[float(x) for x in ln.split()] for ln in lines[1:]])
        ctx.check(close(got, a, 0), 'opal-values', lambda: 'coordinates are %s' % worst(got, a))
    ctx.drop(path)


def run(ctx):
    for i in ctx.cases(250, 4000):
        opal_read(ctx)
    for i in ctx.cases(150, 3000):
        genesis_write(ctx)
    for i in ctx.cases(120, 2000):
        opal_write(ctx)
