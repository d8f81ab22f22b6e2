"""C20: order, length and edges of beamlines."""
import itertools

from mon.lattices import Line, compare, length, spelling

MODULES = ['rsbeams.rslattice.Beamline', 'rsbeams.rslattice.Element']
TECHNIQUE = 'history monitor: a nested list model is compared with the beamline (order, sharing, lengths, edges) after every operation'
RULE = ('Random histories of adding elements (new, repeated, into the last line), adding lines (new, repeated, nested) at any level, changing '
        'lengths (also negative), with lengths as integer, float or numeric string, spelled in any case, or missing.  Non-trivial: at least three operations '
        'and a nonzero length; distinct by history.')
REQUIRE = {'operations': 1000, 'repeated_elements': 80, 'repeated_lines': 30, 'nested_lines': 30, 'into_last_line': 30, 'edges': 2000,
           'lengths': 1000, 'refused': 30, 'cases_at_once': 50, 'calls_repeated_later': 50}


def pair(got, want, out):
    """Every (real element, model element) of the structure, and every (real line, model line)."""
    for a, b in zip(got.sequence, want.seq):
        out.append((a, b))
        if isinstance(b, Line):
            pair(a, b, out)
    return out


def observe(ctx, bl, model, what):
    with ctx.oracle('state'):
        if not compare(ctx, 'order', bl, model, what):
            return
        flat = model.flat()
        out = ctx.call(lambda: list(bl.get_beamline_elements()))
        if not ctx.expect_ok(out, 'elements', 'get_beamline_elements'):
            return
        ctx.check([e.name for e in out.value] == [e.name for e in flat], 'order', '%s: flat sequence is %s, expected %s'
                  % (what, [e.name for e in out.value], [e.name for e in flat]))
        pairs = pair(bl, model, [])
        # sharing: one model object, one real object
        real, mod = {}, {}
        for a, b in pairs + [(bl, model)]:
            ctx.check(real.setdefault(id(b), a) is a, 'sharing', '%s: references to %r are different objects' % (what, b.name))
            ctx.check(mod.setdefault(id(a), b) is b, 'sharing', '%s: %r is shared between different lines' % (what, a.name))
        for a, b in [(bl, model)] + [q for q in pairs if isinstance(q[1], Line)]:
            want = sum(e.length() for e in b.flat())
            ctx.count('lengths')
            out = ctx.call(lambda: a.length)
            if ctx.expect_ok(out, 'length', 'length of %s' % b.name):
                ctx.check(abs(out.value - want) <= 1e-12 * sum(abs(e.length()) for e in b.flat()), 'length', '%s: length of %s is %r, expected %r' % (what, b.name, out.value, want))
        starts, s = {}, 0.0
        for e in flat:
            starts.setdefault(id(e), s)
            s += e.length()
        size = sum(abs(e.length()) for e in flat)
        for a, b in pairs:
            if isinstance(b, Line):
                continue
            ctx.count('edges')
            out = ctx.call(lambda: a.edge)
            if ctx.expect_ok(out, 'edge', 'edge of %s' % b.name):
                ctx.check(abs(out.value - starts[id(b)]) <= 1e-12 * size, 'edge', '%s: edge of %s is %r, expected %r in %s'
                          % (what, b.name, out.value, starts[id(b)], model.shape()))
            ctx.check(a.beamline is bl, 'top', '%s: beamline of %s is not the top beamline' % (what, b.name))


def case(ctx):
    from rsbeams.rslattice.Beamline import StructuredBeamline
    rng = ctx.rng
    name = rng.choice(['ring', 'L 1', ''])
    bl, model = StructuredBeamline(name), Line(name)
    names = ['q%d' % i for i in range(rng.choice([2, 4, 8]))] + ['Q0', 'drift 1']
    lines = ['cell', 'arc', 'q0']
    trace = []
    fresh = itertools.count()
    for _ in range(ctx.size([3, 8, 20], 120, 0.015)):
        # any level reached through the model
        a, b, depth = bl, model, 0
        while rng.random() < 0.5:
            subs = [k for k, e in enumerate(b.seq) if isinstance(e, Line)]
            if not subs or depth == 3:
                break
            k = rng.choice(subs)
            a, b, depth = a.sequence[k], b.seq[k], depth + 1
        op = rng.choice(['add', 'add', 'add', 'line', 'last', 'length', 'refused'])
        if op in ('add', 'last'):
            last = b.seq[-1] if b.seq else None
            if op == 'last' and not isinstance(last, Line):
                if b.seq:
                    ctx.count('refused')
                    out = ctx.call(a.add_element, 'zz%d' % next(fresh), 'drift', {'L': 1.0}, subline=True)
                    ctx.check(isinstance(out.error, Exception), 'accepted', 'an element is added to a subline that does not exist')
                continue
            n = rng.choice(names) if rng.random() < 0.8 else 'e%d' % next(fresh)
            t = rng.choice(['drift', 'Quadrupole', ' SBEND ', 'marker'])
            p = {}
            if rng.random() < 0.85:
                p[spelling(ctx, 'l')] = length(ctx)
            if rng.random() < 0.5:
                p['K1'] = rng.uniform(-1, 1)
            ctx.count('repeated_elements', int(n in b.elements))
            kw = {'subline': True} if op == 'last' else {}
            out = ctx.call(a.add_element, n, t, p, frozen=(p,), **kw)
            if not ctx.expect_ok(out, 'add', 'add_element(%r, %r, %r)' % (n, t, p)):
                return
            if op == 'last':
                # named in this line, placed in the last one
                ctx.count('into_last_line')
                b.add(n, t, p)
                last.seq.append(b.seq.pop())
            else:
                b.add(n, t, p)
            trace.append((op, depth, n, tuple(p.values())))
        elif op == 'line':
            if depth == 3:
                continue
            n = rng.choice(lines)
            ctx.count('repeated_lines', int(n in b.lines))
            ctx.count('nested_lines', int(depth > 0))
            out = ctx.call(a.add_beamline, n)
            if not ctx.expect_ok(out, 'line', 'add_beamline(%r)' % n):
                return
            b.line(n)
            ctx.check(n in a.lines and a.lines[n] is a.sequence[-1], 'line', 'lines does not hold line %r' % n)
            trace.append((op, depth, n))
        elif op == 'length':
            k = [i for i, e in enumerate(b.seq) if not isinstance(e, Line)]
            if not k:
                continue
            i = rng.choice(k)
            v = length(ctx)
            a.sequence[i].parameters[spelling(ctx, 'l')] = v
            b.seq[i].p['l'] = v
            trace.append((op, depth, i, v))
        else:
            ctx.count('refused')
            ctx.check(isinstance(ctx.call(setattr, a, 'length', 3.0).error, AttributeError), 'accepted', 'the length of a beamline can be set')
            e = next((e for e in a.sequence if not hasattr(e, 'sequence')), None)
            if e is not None:
                ctx.check(isinstance(ctx.call(setattr, e, 'edge', 3.0).error, AttributeError), 'accepted', 'the edge of an element can be set')
                ctx.check(isinstance(ctx.call(setattr, e, 'beamline', a).error, AttributeError), 'accepted', 'the beamline of an element can be set')
            continue
        ctx.count('operations')
        observe(ctx, bl, model, 'after %s' % (trace[-1],))
        if ctx.violations:
            break
        yield
    ctx.again('state-kept', 'a beamline made before', lambda: (
        [e.name for e in bl.get_beamline_elements()], bl.length, [e.edge for e in bl.get_beamline_elements()]))
    ctx.case(repr(trace), {'history (operation, level, name, values)': trace}, nontrivial=len(trace) > 2 and any(e.length() for e in model.flat()))


def run(ctx):
    for i in ctx.cases(300, 3000):
        ctx.interleave(case)
