"""C21: editing beamlines, parameter names, saving and loading."""
import os

from mon.lattices import El, Line, compare, length, same, spelling, value

MODULES = ['rsbeams.rslattice.Beamline', 'rsbeams.rslattice.Element']
TECHNIQUE = 'history monitor: a nested list model is compared after every edit, save and load; write audit on saving'
RULE = ('Random nested beamlines with parameters of any YAML type and hostile strings; histories of edits by name and position (one or several '
        'parameters, any spelling, changes of the parameters themselves, new parameters, elements in sublines, names that do not exist), saves and loads into new and non-empty '
        'beamlines.  Non-trivial: the beamline has elements; distinct by structure and history.')
REQUIRE = {'edits_by_name': 150, 'edits_by_position': 100, 'edits_in_sublines': 40, 'new_parameters': 40, 'round_trips': 100, 'spellings': 800,
           'not_empty': 20, 'tables': 60, 'direct': 100}
KEYS = ['l', 'k1', 'K2', 'Angle', 'file', 'group', 'e1', 'N_KICKS', 'X0', 'type', 'name', 'parameters']


def build(ctx):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    rng = ctx.rng
    bl, model = StructuredBeamline('top'), Line('top')
    names = ['q1', 'Q1', 'd', 'm 1', 'b-2', '5', 'true', 'l:x', ' q1', 'd ', '1e3', 'null', '-', 'q_1']
    lines = ['a', 'b', 'c']

    def fill(a, b, depth):
        for _ in range(rng.choice([0, 1, 2, 4, 6]) if depth else ctx.size([1, 2, 5, 9], 60)):
            if depth < 3 and rng.random() < 0.3:
                n = rng.choice(lines)
                new = n not in b.lines
                if not ctx.expect_ok(ctx.call(a.add_beamline, n), 'build', 'add_beamline'):
                    return
                sub = b.line(n)
                if new:
                    fill(a.lines[n], sub, depth + 1)
            else:
                n, t = rng.choice(names), rng.choice(['DRIFT', 'quadrupole', ' Sbend '])
                p = {}
                for k in rng.sample(KEYS, rng.choice([0, 1, 3, 5])):
                    p[spelling(ctx, k)] = length(ctx) if k == 'l' else value(ctx)
                    if k == 'parameters' and rng.random() < 0.6:
                        p = {x: v for x, v in p.items() if x.lower() not in ('name', 'type', k)} if rng.random() < 0.7 else p
                        p[k] = rng.choice([{}, {'k1': 1.5, 'L': 2}, {'name': 'x'}, {'a': {'b': [1]}}])
                        ctx.count('tables')
                if not ctx.expect_ok(ctx.call(a.add_element, n, t, p, frozen=(p,)), 'build', 'add_element'):
                    return
                b.add(n, t, p)
    fill(bl, model, 0)
    return bl, model


def spellings(ctx, bl, model):
    flat = list(bl.get_beamline_elements())
    for a, b in list(zip(flat, model.flat()))[:6]:
        for k in KEYS:
            s = spelling(ctx, k)
            have = k.lower() in b.p
            ctx.count('spellings')
            ctx.check((s in a.parameters) == have, 'spelling', '%r in parameters of %s is %s' % (s, b.name, not have))
            ctx.check(same(a.parameters.get(s, 'none given'), b.p.get(k.lower(), 'none given')), 'spelling', 'get(%r) of %s is %r, expected %r'
                      % (s, b.name, a.parameters.get(s, 'none given'), b.p.get(k.lower())))
            ctx.check(have or a.parameters.get(s) is None, 'spelling', 'get(%r) of a missing parameter is not None' % s)
            out = ctx.call(lambda: a.parameters[s])
            if have:
                ctx.check(out.ok and same(out.value, b.p[k.lower()]), 'spelling', 'parameter %r of %s is %s, expected %r'
                          % (s, b.name, out.value if out.ok else out.why(), b.p[k.lower()]))
            else:
                ctx.check(isinstance(out.error, KeyError), 'spelling', 'missing parameter %r of %s gives %r' % (s, b.name, out.value))


def edit(ctx, bl, model, trace):
    rng = ctx.rng
    flat = model.flat()
    by_name = rng.random() < 0.55
    keys = rng.sample(KEYS, rng.choice([1, 1, 2, 3]))
    vals = [length(ctx) if k == 'l' else value(ctx) for k in keys]
    given = [spelling(ctx, k) for k in keys]
    if len(keys) == 1 and not isinstance(vals[0], list) and rng.random() < 0.7:
        args = (given[0], vals[0])
    else:
        args = (given, vals)
    if by_name:
        target = rng.choice([e.name for e in flat] + ['q1', 'not there', 'Q1'])
        found = []
        for e in flat:
            if e.name == target and e not in found:
                found.append(e)
        ctx.count('edits_by_name')
        ctx.count('edits_in_sublines', int(any(e not in model.seq for e in found)))
    else:
        pos = [i for i, e in enumerate(model.seq) if isinstance(e, El)]
        if not pos:
            return None
        if rng.random() < 0.08:
            # there is no such position
            target = rng.choice([len(model.seq), len(model.seq) + rng.randrange(9), -len(model.seq) - 1])
            ctx.count('positions_refused')
            out = ctx.call(bl.edit_element, target, *args)
            trace.append(('edit', target, given, vals))
            ctx.check(isinstance(out.error, Exception), 'edit-accepted', 'position %d of a line of %d is edited' % (target, len(model.seq)))
            return True
        target = rng.choice(pos)
        found = [model.seq[target]]
        ctx.count('edits_by_position')
    new = {k.lower() for k in keys for e in found if k.lower() not in e.p}
    ctx.count('new_parameters', int(bool(new)))
    kw = {} if rng.random() < 0.5 else {'warnings': rng.random() < 0.5}
    out = ctx.call(bl.edit_element, target, *args, frozen=(args[0], args[1]), **kw)
    trace.append(('edit', target, given, vals))
    if not ctx.expect_ok(out, 'edit', 'edit_element(%r, %r, %r)' % (target, *args)):
        return None
    if kw.get('warnings', True):
        ctx.check(bool(new) == ('WARNING' in out.stdout), 'edit-warning', 'warning about new parameters: %r, new are %s' % (out.stdout[:80], new))
    else:
        ctx.check('WARNING' not in out.stdout, 'edit-warning', 'warning although warnings are off')
    for e in found:
        for k, v in zip(keys, vals):
            e.p[k.lower()] = v
    return True


def direct(ctx, bl, model, trace):
    """Changes of the parameters of an element itself, in any spelling."""
    rng = ctx.rng
    pairs = list(zip(bl.get_beamline_elements(), model.flat()))
    a, b = rng.choice(pairs)
    k = rng.choice(KEYS)
    s, v = spelling(ctx, k), length(ctx) if k == 'l' else value(ctx)
    have = k.lower() in b.p
    op = rng.choice(['set', 'update', 'update', 'setdefault', 'pop', 'pop', 'del'])
    trace.append((op, b.name, s))
    ctx.count('direct')
    what = '%s of parameter %r (%s) of %s' % (op, s, 'there' if have else 'not there', b.name)
    if op in ('set', 'update'):
        j = rng.choice([n for n in KEYS if n != k and n != 'l'])
        w, two = value(ctx), op == 'update' and rng.random() < 0.5
        if op == 'set':
            out = ctx.call(a.parameters.__setitem__, s, v)
        else:
            new = {s: v, **({spelling(ctx, j): w} if two else {})}
            out = ctx.call(a.parameters.update, *[new] if rng.random() < 0.7 else [list(new.items())])
        b.p[k.lower()] = v
        if two:
            b.p[j.lower()] = w
        ctx.expect_ok(out, 'direct', what)
    elif op == 'setdefault':
        out = ctx.call(a.parameters.setdefault, s, v)
        if ctx.expect_ok(out, 'direct', what):
            ctx.check(same(out.value, b.p.setdefault(k.lower(), v)), 'direct', '%s gives %r' % (what, out.value))
    elif op == 'pop':
        default = rng.choice([[], [None], ['none']])
        out = ctx.call(a.parameters.pop, s, *default)
        if not have and not default:
            ctx.check(isinstance(out.error, KeyError), 'direct', '%s gives %r' % (what, out.value))
        elif ctx.expect_ok(out, 'direct', what):
            want = b.p.pop(k.lower()) if have else default[0]
            ctx.check(same(out.value, want), 'direct', '%s gives %r, expected %r' % (what, out.value, want))
    else:
        out = ctx.call(a.parameters.__delitem__, s)
        if have:
            ctx.expect_ok(out, 'direct', what)
            del b.p[k.lower()]
        else:
            ctx.check(isinstance(out.error, KeyError), 'direct', '%s is accepted' % what)


def unshared(line):
    """Loaded structure: elements of the same name in one level are one element; every line is of its own."""
    new = Line(line.name)
    for e in line.seq:
        new.seq.append(unshared(e) if isinstance(e, Line) else e)
    return new


def save_load(ctx, bl, model):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    rng = ctx.rng
    path = ctx.path('.yml')
    if rng.random() < 0.2:
        open(path, 'w').write('old: content\n' * 500)
    before = ctx.call(bl.save_beamline, path)
    if not ctx.expect_ok(before, 'save', 'save_beamline of %s' % model.shape()):
        return None
    ctx.check({os.path.basename(w) for w in before.written} == {os.path.basename(path)}, 'save-files', 'save_beamline writes %s' % before.written)
    compare(ctx, 'save-alters', bl, model, 'beamline after saving', names=False)
    first = open(path, 'rb').read()
    if rng.random() < 0.4:
        ctx.expect_ok(ctx.call(bl.save_beamline, path), 'save', 'second save')
        ctx.check(open(path, 'rb').read() == first, 'save-repeat', 'saving twice gives different files')
    new = StructuredBeamline('loaded')
    out = ctx.call(new.load_beamline, path, rng.choice(['elegant', 'opal']))
    if not ctx.expect_ok(out, 'load', 'load_beamline of %s' % model.shape()):
        return None
    ctx.check(not out.written, 'load-files', 'load_beamline writes files')
    ctx.count('round_trips')
    expect = unshared(model)
    expect.name = 'loaded'
    with ctx.oracle('load'):
        if not compare(ctx, 'load', new, expect, 'loaded beamline', names=False):
            return None
        want = sum(e.length() for e in model.flat())
        ctx.check(abs(new.length - want) <= 1e-12 * sum(abs(e.length()) for e in model.flat()), 'load-length', 'length after loading is %r, expected %r' % (new.length, want))
        s = 0.0
        seen = {}
        for a, b in zip(new.get_beamline_elements(), model.flat()):
            ctx.check(abs(a.edge - seen.setdefault(id(a), s)) <= 1e-12 * sum(abs(e.length()) for e in model.flat()), 'load-edge', 'edge of %s after loading is %r, expected %r' % (b.name, a.edge, s))
            s += b.length()
        again = ctx.path('.yml')
        if ctx.expect_ok(ctx.call(new.save_beamline, again), 'save', 'save of the loaded beamline'):
            ctx.check(open(again, 'rb').read() == first, 'load-save', 'saving the loaded beamline gives another file')
    # loading into a beamline that is not empty leaves it alone
    if model.seq and rng.random() < 0.3:
        ctx.count('not_empty')
        out = ctx.call(bl.load_beamline, path, 'elegant')
        ctx.expect_ok(out, 'load', 'load into a beamline that is not empty')
        compare(ctx, 'load-not-empty', bl, model, 'beamline that was not empty', names=False)
    ctx.drop(path)
    return new


def rebuild(line):
    """Model of a loaded beamline, with sharing within levels as load creates it."""
    new = Line(line.name)
    for i, e in enumerate(line.seq):
        if isinstance(e, Line):
            sub = rebuild(e)
            new.lines[len(new.lines)] = sub
            new.seq.append(sub)
        else:
            if e.name not in new.elements:
                el = El(e.name, e.type, e.p)
                new.elements[e.name] = el
            new.seq.append(new.elements[e.name])
    return new


def case(ctx):
    rng = ctx.rng
    bl, model = build(ctx)
    trace = []
    if not model.flat():
        return
    for _ in range(rng.choice([1, 3, 8])):
        op = rng.choice(['edit', 'edit', 'edit', 'yaml', 'spell', 'direct'])
        if op == 'edit':
            edit(ctx, bl, model, trace)
        elif op == 'direct':
            direct(ctx, bl, model, trace)
        elif op == 'spell':
            spellings(ctx, bl, model)
        else:
            trace.append(('save and load',))
            new = save_load(ctx, bl, model)
            if new is not None and rng.random() < 0.6:
                # continue with the loaded beamline
                bl, model = new, rebuild(model)
                model.name = 'loaded'
        with ctx.oracle('state'):
            compare(ctx, 'edit', bl, model, 'after %s' % (trace[-1:],), names=False)
        if ctx.violations:
            break
        yield
    ctx.case((repr(model.shape()), repr(trace)), {'structure': model.shape(), 'history': trace})


def run(ctx):
    for i in ctx.cases(180, 2400):
        ctx.interleave(case)
