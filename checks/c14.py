"""C14: phase-space and Twiss containers."""
import os

import numpy as np

MODULES = ['rsbeams.rsptcls.RsPhaseSpace6D', 'rsbeams.rsptcls.RsTwiss2D']
TECHNIQUE = 'history monitor: shadow copies compared after every operation, write audit, independent reading and writing of files'
RULE = ('Random histories of set, resize, name, write and read operations on one to three phase spaces that share a few file '
        'names, with arrays of any content (NaN, infinities, negative zero), followed by comparison of all accessors with '
        'shadow copies; files are also read and written with NumPy alone.  Non-trivial: particles are not all zero; distinct '
        'by history.')
REQUIRE = {'operations': 400, 'writes': 60, 'reads': 60, 'twiss': 50, 'refused': 20}
GET = ['get_array_x', 'get_array_xp', 'get_array_y', 'get_array_yp', 'get_array_s', 'get_array_dp']


def content(ctx, n):
    a = ctx.np.normal(size=(6, n)) * 10.0 ** ctx.np.uniform(-12, 6, size=(6, 1))
    for _ in range(ctx.rng.choice([0, 0, 3])):
        a[ctx.rng.randrange(6), ctx.rng.randrange(n)] = ctx.rng.choice([0.0, -0.0, np.nan, np.inf, -np.inf, 5e-324])
    return np.asfortranarray(a) if ctx.rng.random() < 0.2 else a


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def history(ctx):
    from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
    rng = ctx.rng
    objs, trace, given = [], [], []
    for _ in range(rng.choice([1, 2, 3])):
        n = rng.choice([1, 2, 3, 10, 100])
        out = ctx.call(RsPhaseSpace6D, n)
        if not ctx.expect_ok(out, 'create', 'RsPhaseSpace6D(%d)' % n):
            return
        objs.append([out.value, np.zeros((6, n)), n, 'ps6d'])
    disk = {}
    names = ['ps6d', os.path.join(ctx.scratch, 'beam'), os.path.join(ctx.scratch, 'a.b')]
    names += [names[1] + rng.choice(['z', 'n', 'p', '.npz', '_', '1', ' ', '.']), rng.choice([names[2] + '.npy', names[1].replace('beam', 'Beam')])]
    for _ in range(rng.choice([5, 12, 25])):
        i = rng.randrange(len(objs))
        o, arr, n, name = objs[i]
        k = rng.randrange(7)
        ctx.count('operations')
        out = None
        if k == 0:
            if rng.random() < 0.05:
                n = rng.choice([5000, 30000, 200000])
                o.set_num_ptcls(n)
                objs[i][2] = n
            new = content(ctx, n)
            out = ctx.call(o.set_array_6d, new, frozen=(new,))
            objs[i][1] = new.copy(order='K')
            given.append((new, new.copy(order='K')))
        elif k == 3 and rng.random() < 0.25:
            # another number of particles, written at once
            new = content(ctx, rng.choice([1, 3, 15, 60]))
            out = ctx.call(o.set_array_6d, new)
            if ctx.expect_ok(out, 'set', 'set_array_6d'):
                out = ctx.call(o.write_array)
                ctx.count('writes')
                disk[name] = new.copy(order='K')
                if ctx.expect_ok(out, 'operation', 'write_array'):
                    out = ctx.call(o.check_array)
            objs[i][1:3] = [new.copy(order='K'), new.shape[1]]
        elif k == 1:
            n = rng.choice([1, 2, 5, 40])
            out = ctx.call(o.set_num_ptcls, n)
            objs[i][1:3] = [np.zeros((6, n)), n]
        elif k == 2:
            name = rng.choice(names)
            out = ctx.call(o.set_file_name, name)
            objs[i][3] = name
        elif k == 3:
            out = ctx.call(o.write_array)
            path = name + '.npz'
            ctx.count('writes')
            disk[name] = arr.copy(order='K')
            ctx.check({os.path.basename(w) for w in out.written} <= {os.path.basename(path)} and os.path.exists(path), 'write-files',
                      'write_array writes %s, file name is %r' % (out.written, name))
        elif k == 4 and name in disk:
            ctx.count('reads')
            out = ctx.call(o.read_array)
            objs[i][1] = disk[name].copy(order='K')
            objs[i][2] = disk[name].shape[1]
            ctx.check(not out.written, 'read-writes', 'read_array opens files for writing')
        elif k == 5:
            # file made by someone else
            new = content(ctx, rng.choice([1, 3, 20]))
            np.savez(name + '.npz', a=new)
            disk[name] = new
        elif k == 6:
            new = content(ctx, rng.choice([1, 4, 30]))
            out = ctx.call(o.set_array_6d, new)
            if ctx.expect_ok(out, 'set', 'set_array_6d'):
                out = ctx.call(o.check_array)
            objs[i][1:3] = [new.copy(order='K'), new.shape[1]]
        trace.append((i, k, objs[i][2], objs[i][3][-4:]))
        if out is not None and not ctx.expect_ok(out, 'operation', 'operation %d of %s' % (k, trace)):
            break
        for q, (o, arr, n, name) in enumerate(objs):
            with ctx.oracle('state'):
                ctx.count('states')
                ctx.check(o.get_num_ptcls() == n, 'count', 'get_num_ptcls() is %r, expected %d after %s' % (o.get_num_ptcls(), n, trace[-1]))
                ctx.check(equal(o.get_array_6d(), arr), 'array', 'phase space %d differs after operation %s' % (q, trace[-1]))
                for r, g in enumerate(GET):
                    ctx.check(equal(getattr(o, g)(), arr[r]), 'coordinate', '%s() is not row %d after %s' % (g, r, trace[-1]))
                ctx.check(o.get_file_name() == name, 'name', 'get_file_name() is %r, expected %r' % (o.get_file_name(), name))
            if rng.random() < 0.3:
                # somebody keeps the array
                a = o.get_array_6d()
                given.append((a, a.copy(order='K')))
        for a, before in given[-12:]:
            ctx.check(equal(a, before), 'kept', lambda: 'an array that was given to or by a phase space has changed after %s' % (trace[-1],))
        if ctx.violations:
            break
    for name, arr in disk.items():
        with ctx.oracle('file'):
            with np.load(name + '.npz') as f:
                ctx.check(equal(f['a'], arr), 'file', 'file %s.npz does not hold the array written' % name)
        os.remove(name + '.npz')
    if rng.random() < 0.4:
        ctx.hold('results-kept', 'the array of another phase space', objs[0][0].get_array_6d())
    ctx.case(tuple(trace), {'operations (object, kind, particles, file)': trace}, nontrivial=any(np.any(x[1]) for x in objs))


def twiss(ctx):
    from rsbeams.rsptcls.RsTwiss2D import RsTwiss2D
    rng = ctx.rng
    made = []
    for _ in range(rng.choice([1, 3])):
        al, be, em = rng.choice([0.0, rng.uniform(-20, 20), -1e-9, 300.0]), 10 ** rng.uniform(-6, 6), 10 ** rng.uniform(-20, 3)
        out = ctx.call(RsTwiss2D, al, be, em)
        if not ctx.expect_ok(out, 'twiss', 'RsTwiss2D'):
            return
        made.append((out.value, al, be, em))
    for t, al, be, em in made:
        ctx.case(('twiss', al, be, em), {'alpha': al, 'beta': be, 'emittance': em})
        ctx.count('twiss')
        with ctx.oracle('twiss'):
            ga = t.get_gamma_rms()
            ctx.check((t.get_alpha_rms(), t.get_beta_rms(), t.get_emit_rms()) == (al, be, em), 'twiss', 'values are not those given')
            ctx.check(abs(ga * be - (1 + al * al)) <= 1e-14 * (1 + al * al), 'twiss', 'gamma is %r for alpha=%r, beta=%r' % (ga, al, be))


def refused(ctx):
    from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
    rng = ctx.rng
    for n in (0, -1, -100):
        ctx.case(('refused', n))
        ctx.count('refused')
        ctx.check(isinstance(ctx.call(RsPhaseSpace6D, n).error, Exception), 'accepted', 'RsPhaseSpace6D(%d) is accepted' % n)
    for shape in ((5, 10), (7, 10), (10, 6), (6,), (6, 0), (6, 2, 2), ()):
        o = RsPhaseSpace6D(rng.choice([1, 3]))
        ctx.case(('refused', shape), {'shape': shape})
        ctx.count('refused')
        if rng.random() < 0.5:
            o.set_file_name(os.path.join(ctx.scratch, 'bad'))
            np.savez(os.path.join(ctx.scratch, 'bad.npz'), a=np.ones(shape))
            out = ctx.call(o.read_array)
        else:
            out = ctx.call(o.set_array_6d, np.ones(shape))
            if out.ok:
                out = ctx.call(o.check_array)
        ctx.check(isinstance(out.error, Exception), 'accepted', 'an array of shape %s is accepted' % (shape,))
    o = RsPhaseSpace6D(2)
    ctx.count('refused')
    ctx.check(isinstance(ctx.call(o.set_file_name, '').error, Exception), 'accepted', 'an empty file name is accepted')
    ctx.check(isinstance(ctx.call(o.set_num_ptcls, 0).error, Exception), 'accepted', 'no particles are accepted')
    o.set_file_name(os.path.join(ctx.scratch, 'does not exist'))
    ctx.check(isinstance(ctx.call(o.read_array).error, Exception), 'accepted', 'reading a missing file succeeds')


def run(ctx):
    for i in ctx.cases(100, 2000):
        history(ctx)
    for i in ctx.cases(60, 1000):
        twiss(ctx)
    for i in ctx.cases(3, 20):
        refused(ctx)
