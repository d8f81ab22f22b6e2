"""C09: the registry of a Switchyard."""
import os

import numpy as np

from mon import sddsgen as g
from mon.core import snapshot
from mon.ptcls import beam, close
from checks.c07 import NAMES, to_elegant

MODULES = ['rsbeams.rsdata.switchyard', 'rsbeams.rsptcls.species']
TECHNIQUE = 'history monitor: shadow registry compared after every operation of random read/write histories'
RULE = ('Random histories of 4 to 25 operations on one to three Switchyards: reading elegant and OPAL files (which are '
        'replaced by others under the same path at times) under new, taken, '
        'default and odd names, writing to all formats by name and by default, and invalid requests (unknown format, '
        'missing species, broken file).  After each operation the registry is compared with a shadow copy.  Non-trivial: '
        'at least two operations; distinct by history.')
REQUIRE = {'operations': 500, 'name_taken': 50, 'default_written': 20, 'refused': 50, 'files_replaced': 60}


def make(ctx, path, fmt):
    """Writes a new file at the path; returns its entry of the pool."""
    import h5py
    q = 1e-9 * ctx.rng.choice([0.5, 1, 2, 3, 5, 7, 0])
    if fmt == 'elegant':
        a = beam(ctx, ctx.rng.choice([1, 2, 5]))
        doc = g.Doc()
        doc.cols = [g.describe(ctx.rng, n, 'double') for n in NAMES]
        doc.params = [g.describe(ctx.rng, 'Charge', 'double')]
        doc.pages = [({'Charge': q}, [tuple(r) for r in to_elegant(a)])]
        with open(path, 'wb') as f:
            f.write(g.encode(doc, ctx.rng)[0])
    else:
        a = beam(ctx, ctx.rng.choice([1, 3]))
        with h5py.File(path, 'w') as f:
            grp = f.create_group('Step#%d' % ctx.rng.randrange(4))
            for k, n in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
                grp[n] = a[:, k]
            grp.attrs['TotalCharge'] = q
    return (path, fmt, a, q)


def files(ctx):
    """A pool of valid and broken files with their contents."""
    pool = []
    for i in range(5):
        pool.append(make(ctx, ctx.path('.sdds'), 'elegant'))
        pool.append(make(ctx, ctx.path('.h5'), 'opal'))
    broken = [(ctx.write(b'SDDS1\n&column name=x, type=double, &end\n', '.sdds'), 'elegant'),
              (ctx.path('.none'), 'elegant'), (ctx.path('.none'), 'opal'), (ctx.write(b'not hdf5'), 'opal')]
    return pool, broken


def compare(ctx, yards, after):
    for sw, shadow in yards:
        with ctx.oracle('registry'):
            ctx.count('registry_checks')
            ctx.check(list(sw.species) == list(shadow), 'registry-names',
                      lambda: 'after %s the registry holds %s, expected %s' % (after, list(sw.species), list(shadow)))
            for name, (obj, snap, a, q) in shadow.items():
                ctx.check(sw.species[name] is obj, 'registry-replaced', lambda: 'after %s species %r is another object' % (after, name))
                ctx.check(snapshot(sw.species[name]) == snap, 'registry-altered', lambda: 'after %s species %r has changed' % (after, name))


def history(ctx):
    from rsbeams.rsdata.switchyard import Switchyard
    rng = ctx.rng
    pool, broken = ctx.pool
    yards = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        out = ctx.call(Switchyard)
        if not ctx.expect_ok(out, 'create', 'Switchyard()'):
            return
        yards.append((out.value, {}))
    trace, last = [], None
    for step in range(ctx.size([4, 8, 25], 120)):
        y = rng.randrange(len(yards))
        sw, shadow = yards[y]
        k = rng.random()
        ctx.count('operations')
        if k < 0.45:
            if rng.random() < 0.25:
                # another run of the simulation replaces its output
                j = rng.randrange(len(pool))
                pool[j] = make(ctx, pool[j][0], pool[j][1])
                ctx.count('files_replaced')
                trace.append(('replace', os.path.basename(pool[j][0])))
                if rng.random() < 0.7:
                    last = j
            path, fmt, a, q = pool[last] if last is not None and rng.random() < 0.5 else rng.choice(pool)
            last = [p[0] for p in pool].index(path)
            name = rng.choice([None, 'species_0', 'a', 'b', 'species_1', 'A', ' a', 'a ', 'a b', 'a.b', 'species_10', 'A\n',
                               'é', 'x' * 70, '0', 'elegant', 'opal', 'genesis', 'None', 'species', 'file',
                               'species_name', 'default'])
            use = name or 'species_0'
            trace.append((y, 'read', os.path.basename(path), name))
            taken = use in shadow
            ctx.count('name_taken', int(taken))
            out = ctx.call(sw.read, path, fmt, **({} if name is None else {'species_name': name}))
            if not ctx.expect_ok(out, 'registry-read', 'reading a %s file as %r' % (fmt, name)):
                return
            if not taken:
                with ctx.oracle('registry'):
                    if not ctx.check(use in sw.species, 'registry-missing', 'species read as %r is not registered' % name):
                        return
                    sp = sw.species[use]
                    ctx.check(close(sp.coordinates, a, 1e-14) and abs(float(sp.total_charge) - q) <= 1e-14 * abs(q),
                              'registry-content', 'species %r does not hold the file just read (%s)' % (use, trace))
                    shadow[use] = (sp, snapshot(sp), a, q)
        elif k < 0.8:
            code = rng.choice(['elegant', 'genesis', 'opal'])
            path = os.path.join(ctx.scratch, 'out%d' % rng.randrange(4))
            default = rng.random() < 0.35
            name = None if default else rng.choice(list(shadow) or ['a'])
            trace.append((y, 'write', code, name))
            out = ctx.call(sw.write, path, code, **({} if default else {'species_name': name}))
            if shadow:
                if not ctx.expect_ok(out, 'registry-write', 'writing %r as %s' % (name, code)):
                    return
                ctx.check(out.value == path, 'registry-write-result', 'write returns %r' % (out.value,))
                if default and code == 'opal':
                    ctx.count('default_written')
                    first = next(iter(shadow.values()))[0].coordinates
                    with ctx.oracle('default'):
                        got = np.loadtxt(path, skiprows=1, ndmin=2)
                        ctx.check(close(got, first, 1e-15), 'registry-default', 'default is not the first registered species')
            else:
                ctx.check(not out.ok, 'registry-write-nothing', 'writing from an empty registry succeeds')
        else:
            ctx.count('refused')
            kind = rng.randrange(5)
            path, fmt, _, _ = rng.choice(pool)
            target = os.path.join(ctx.scratch, 'untouched')
            with open(target, 'w') as f:
                f.write('x')
            trace.append((y, 'invalid', kind))
            if kind == 0:
                out = ctx.call(sw.read, path, rng.choice(['astra', '', 'Elegant', 'genesis']), species_name='new')
            elif kind == 1:
                out = ctx.call(sw.write, target, rng.choice(['astra', '']), species_name=rng.choice(list(shadow) or ['q']))
            elif kind == 2:
                out = ctx.call(sw.write, target, rng.choice(['elegant', 'opal', 'genesis']), species_name='no such species')
            else:
                path, fmt = rng.choice(broken)
                out = ctx.call(sw.read, path, fmt, species_name=rng.choice(['new', 'a']))
            ctx.check(isinstance(out.error, Exception), 'registry-invalid', 'invalid request %d is accepted' % kind)
            if kind in (1, 2):
                ctx.check(open(target).read() == 'x', 'registry-invalid-write', 'refused write touches the file')
        compare(ctx, yards, trace[-1])
        if ctx.violations:
            break
    ctx.case(tuple(map(str, trace)), {'history': [list(map(str, t)) for t in trace]}, nontrivial=len(trace) > 1)


def supported(ctx):
    from rsbeams.rsdata.switchyard import Switchyard
    sw = Switchyard()
    for code, want in (('elegant', True), ('opal', True), ('genesis', True), ('astra', False), ('', False)):
        out = ctx.call(sw.is_supported, code)
        ctx.case(('supported', code))
        if ctx.expect_ok(out, 'supported', 'is_supported(%r)' % code):
            ctx.check(bool(out.value) == want, 'supported', 'is_supported(%r) is %r' % (code, out.value))
    codes = Switchyard.supported_codes()
    ctx.check(set(codes) == {'elegant', 'opal', 'genesis'}, 'supported', 'supported_codes() is %r' % (codes,))


def run(ctx):
    for i in ctx.cases(150, 2500):
        if i % 25 == 0:
            ctx.pool = files(ctx)
        history(ctx)
    supported(ctx)
