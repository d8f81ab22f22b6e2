"""C26: Trace3D and TraceWin lattices."""
import math

from mon.lattices import El, Line, compare
from mon.lte import mixcase, number_text

MODULES = ['rsbeams.rslattice.trace3d_parser']
TECHNIQUE = 'reference monitor: each parse is compared with the model the text was generated from; conservation of length by the merge functions; file audit'
RULE = ('Random Trace3D decks (drifts, quadrupoles, edges, bends, cavities between namelist headers and footers) and TraceWin files (drifts, quadrupoles, '
        'NCELLS, DTL_CEL, FREQ, SET_SYNC_PHASE, FIELD_MAP) with all number forms, comments, empty lines, case, white space and line ends; repeated use '
        'and the merge functions for bends and cavities.  Non-trivial: at least two elements; distinct by text.')
ASSUMPTIONS = ['descriptions without "=", "(" and ";"; one element per line; NCELLS in mode 0; no labels in TraceWin files']
REQUIRE = {'trace3d': 200, 'tracewin': 200, 'elements': 3000, 'reused': 60, 'bends': 100, 'cavities': 100, 'cells': 100, 'refused': 20, 'field_maps': 100, 'cases_at_once': 50, 'file_names_used_again': 50}
C = 299792458.0
DEG = math.pi / 180


def near(a, b):
    return abs(a - b) <= 1e-12 * abs(b)


def verify(ctx, got, want, what, names):
    """Sequence, types and parameters (within rounding) of a flat line."""
    with ctx.oracle('parse'):
        g = list(got.get_beamline_elements())
        w = want.flat()
        if not ctx.check(len(g) == len(w), 'sequence', '%s: %d elements, expected %d (%s, expected %s)'
                         % (what, len(g), len(w), [e.type for e in g], [e.type for e in w])):
            return False
        ctx.check(got.name == want.name, 'name', '%s: line %r, expected %r' % (what, got.name, want.name))
        for i, (a, b) in enumerate(zip(g, w)):
            if names:
                ctx.check(a.name == b.name, 'name', '%s: element %d is %r, expected %r' % (what, i, a.name, b.name))
            ctx.check(a.type == b.type, 'type', '%s: element %d has type %r, expected %r' % (what, i, a.type, b.type))
            p = dict(a.parameters.items())
            ctx.check(set(p) == set(b.p) and all(near(p[k], b.p[k]) if k != 'file' else p[k] == b.p[k] for k in b.p), 'parameters',
                      '%s: element %d, %s: parameters are %s, expected %s' % (what, i, b.type, p, b.p))
            ctx.count('elements')
        lengths = [e.length() for e in w]
        ctx.check(abs(got.length - sum(lengths)) <= 1e-9 * sum(map(abs, lengths)), 'length', '%s: length %r, expected %r' % (what, got.length, sum(lengths)))
        ctx.check(len({e.name for e in g}) == len(g), 'name', '%s: names are not unique: %s' % (what, [e.name for e in g]))
    return not ctx.violations


def num(ctx, positive=False):
    rng = ctx.rng
    v = rng.choice([None, None, rng.uniform(0, 500), rng.randrange(1, 400), 10 ** rng.uniform(-8, 8)])
    if positive and (v is None or v == 0):
        v = rng.uniform(0.1, 300)
    return number_text(ctx, v, fortran=True)


def junk(ctx, comment):
    rng = ctx.rng
    return rng.choice(['', '', '', '\n', '   \n', '%s comment\n' % comment, '  %s quad 1 2 3\n' % comment, '%scmt(9)= nt(9)=1 a(1,9)= 5\n' % comment, '\t\n'])


def tail(ctx, comment):
    return ctx.rng.choice(['', '', '', ' ', '  %s end' % comment, '%s 99 1.5' % comment, '\t'])


def finish(ctx, text):
    if ctx.rng.random() < 0.3:
        text = text[:-1] if text.endswith('\n') else text
    if ctx.rng.random() < 0.15:
        text = text.replace('\n', '\r\n')
    return text


# -- Trace3D ------------------------------------------------------------------------------------------------------------
T3 = {1: ('drift', ['l']), 3: ('quadrupole', ['k1', 'l', 'dx', 'dy', 'of']), 8: ('sbend', ['angle', 'r', 'index', 'vf']),
      9: ('edge', ['beta', 'r', 'g', 'k1', 'k2']), 10: ('rfca', ['volt', 'phase', 'egf', 'change_p0', 'h'])}
T3_UNITS = {'l': 1e-3, 'r': 1e-3, 'g': 1e-3, 'dx': 1e-3, 'dy': 1e-3, 'angle': DEG, 'beta': DEG, 'volt': 1e6}
DESC = ['drift', 'quad 1', 'entrance', 'bend-edge', "q'", '', 'd 3.5', 'mount', 'cavity No. 10', 'data', '1e5']


def t3_plan(ctx, physical):
    """Kinds of the elements; physical: bends between edges and cavities between drifts."""
    rng = ctx.rng
    kinds = []
    for _ in range(ctx.size([1, 2, 4, 8, 20], 130)):
        k = rng.choice([1, 1, 3, 8, 9, 10])
        if physical:
            kinds += {8: [9, 8, 9], 10: [1, 10, 1] if rng.random() < 0.6 or not kinds or kinds[-1] != 1 else [10, 1], 9: [3]}.get(k, [k])
        else:
            kinds.append(k)
    return kinds


def trace3d(ctx):
    from rsbeams.rslattice.trace3d_parser import Trace3d
    rng = ctx.rng
    physical = rng.random() < 0.6
    kinds = t3_plan(ctx, physical)
    given = rng.choice(['line', 'LEBT', 'l 1'])
    want = Line(given)
    text = rng.choice(['', '&data\n', ' $data\n']) + rng.choice(['', 'er= 939.3014, q= -1., w= 2.5, xi= 45.,\nemiti = 15, 15, 0.5\n'])
    text += rng.choice(['', 'n1= 1, n2= %d\n' % len(kinds), 'beami= 1.2, -3.4e-2,\n'])
    digits = len(str(len(kinds)))
    offset = rng.choice([0, 1, 1, 1, 10])
    for i, k in enumerate(kinds):
        text += junk(ctx, ';')
        index = ('%%0%dd' % digits if rng.random() < 0.8 else '%d') % (i + offset)
        type_, names = T3[k]
        values = [num(ctx) for _ in names]
        if rng.random() < 0.05:
            values.append(num(ctx))
        if rng.random() < 0.05 and k not in (8, 9) and not physical:
            values = values[:rng.randrange(1, len(values) + 1)]
        p = {n: v * T3_UNITS.get(n, 1) for n, (_, v) in zip(names, values)}
        if k == 8:
            p['l'] = abs(p['r'] * p['angle'])
        want.add(index, type_, p)
        sep = rng.choice([', ', ',', ' ', '  ', ' , '])
        s = "%scmt(%s%s)%s=%s'%s'%s nt(%s)%s=%s%d%s a(1,%s)%s=%s" % (
            rng.choice(['', ' ', '  ']), rng.choice(['', '', ' ']), index, rng.choice(['', ' ']), rng.choice(['', ' ']), rng.choice(DESC), rng.choice(['', ',']),
            index, rng.choice(['', ' ']), rng.choice(['', ' ', '  ']), k, rng.choice(['', ',']), index, rng.choice(['', ' ']), rng.choice(['', ' ', '  ']))
        text += mixcase(ctx, s) + sep.join(t for t, _ in values) + rng.choice(['', ',', ' ']) + tail(ctx, ';') + '\n'
    text += rng.choice(['', '&end\n', ' $end\n', '; end\n'])
    text = finish(ctx, text)
    ctx.case(text, {'trace3d': text}, nontrivial=len(kinds) > 1)
    what = 'Trace3D %r' % text
    path = ctx.write(text, '.t3d')
    out = ctx.call(lambda: Trace3d(path, given))
    if not ctx.expect_ok(out, 'parse', what):
        return
    parser = out.value
    yield
    out = ctx.call(parser, steps=60_000_000)
    if not ctx.expect_ok(out, 'parse', what):
        return
    ctx.check(not out.written, 'writes', 'parser opens files for writing: %s' % out.written)
    ctx.count('trace3d')
    first = out.value
    if not verify(ctx, first, want, what, True):
        return
    yield
    if rng.random() < 0.3:
        ctx.count('reused')
        out = ctx.call(parser, steps=60_000_000)
        if not ctx.expect_ok(out, 'reuse', what) or not verify(ctx, out.value, want, 'second use, %s' % what, True):
            return
    if physical:
        merge(ctx, parser, kinds, want, what)
    with open(path, newline='') as f:
        ctx.check(f.read() == text, 'file', 'the lattice file has been changed')
    ctx.drop(path)


def merge(ctx, parser, kinds, want, what):
    """Edges become parameters of the bends; cavities get the length of the drifts around them."""
    rng = ctx.rng
    line = parser.beamline
    todo = ['handle_bends', 'handle_cavities']
    rng.shuffle(todo)
    for step in todo[:rng.choice([1, 2, 2])]:
        if not ctx.expect_ok(ctx.call(getattr(parser, step)), step, what):
            return
        if step == 'handle_bends':
            seq, gone = [], set()
            for i, e in enumerate(want.seq):
                if e.type == 'sbend':
                    a, b = want.seq[i - 1], want.seq[i + 1]
                    e.p.update({'e1': a.p['beta'], 'e2': b.p['beta'], 'hgap': a.p['g'] / 2, 'fint': a.p['k1']})
                    gone |= {id(a), id(b)}
                    ctx.count('bends')
            want.seq = [e for e in want.seq if id(e) not in gone]
        else:
            before = sum(e.length() for e in want.seq)
            for i, e in enumerate(want.seq):
                if e.type == 'rfca':
                    a, b = want.seq[i - 1], want.seq[i + 1]
                    e.p['l'] = a.p['l'] + b.p['l']
                    a.p['l'] = b.p['l'] = 0.0
                    e.p['phase'] = 90. - e.p['phase']
                    ctx.count('cavities')
            scale = sum(abs(e.length()) for e in want.seq)
            ctx.check(abs(line.length - before) <= 1e-9 * scale, 'length', '%s: length %r after %s, was %r' % (what, line.length, step, before))
        if not verify(ctx, line, want, 'after %s, %s' % (step, what), True):
            return


# -- TraceWin -----------------------------------------------------------------------------------------------------------
TW = {'DRIFT': ('drift', ['l', 'r', 'ry', 'rx_shift', 'ry_shift']), 'QUAD': ('quadrupole', ['l', 'k1', 'r', 'theta', 'g3u3', 'g4u4', 'g5u5', 'g6u6', 'gfr']),
      'DTL_CEL': ('', ['l', 'lq1', 'lq2', 'gc', 'b1', 'b2', 'volt', 'phase', 'r', 'p', 'beta_s', 't_s', 'kts', 'k2ts']),
      'NCELLS': ('', ['mode', 'n', 'beta', 'volt', 'phase', 'r', 'p', 'ke0ti', 'ke0to', 'dzi', 'dzo']), 'FREQ': ('', ['frequency']),
      'SET_SYNC_PHASE': ('marker', []), 'FIELD_MAP': ('field_map', ['type', 'l', 'phase', 'r', 'kb', 'ke', 'ki', 'ka'])}


def tracewin(ctx):
    from rsbeams.rslattice.trace3d_parser import TraceWin
    rng = ctx.rng
    given = rng.choice(['line', 'MEBT', 'x'])
    want = Line(given)
    text = rng.choice(['', '; TraceWin file\n', '\n;DRIFT 1\n'])
    freq, refused = None, False
    late = rng.random() < 0.15
    commas = rng.random() < 0.1
    ctx.count('commas', int(commas))
    for i in range(ctx.size([1, 2, 4, 8, 25], 150)):
        text += junk(ctx, ';')
        kind = 'DTL_CEL' if late and freq is None and i == 0 else 'FREQ' if late and freq is None and i == 1 else rng.choice(['DRIFT', 'DRIFT', 'QUAD', 'DTL_CEL', 'NCELLS', 'FREQ', 'SET_SYNC_PHASE', 'FIELD_MAP'])
        if kind == 'NCELLS' and freq is None and rng.random() < 0.9:
            kind = 'FREQ'
        type_, names = TW[kind]
        values = [num(ctx, positive=n in ('l', 'frequency', 'beta')) for n in names]
        if kind == 'NCELLS':
            n = rng.choice([1, 2, 5, 9])
            values[0], values[1] = ('0', 0.0), (str(n), float(n))
        if kind in ('DRIFT', 'QUAD') and rng.random() < 0.2:
            values = values[:rng.randrange(1 if kind == 'DRIFT' else 3, len(values) + 1)]
        p = {n: v for n, (_, v) in zip(names, values)}
        for n in ('l', 'lq1', 'lq2'):
            if n in p:
                p[n] *= 1e-3
        file = rng.choice(['cavity', 'map_a', 'field', 'map3.edz', '162mhz', '1d.map', '3.5', '20', '']) if kind == 'FIELD_MAP' else ''
        if file:
            p['file'] = file
            ctx.count('field_maps')
        name = 'e%d' % i
        if kind == 'FREQ':
            freq = p['frequency'] * 1e6
        elif kind == 'NCELLS':
            if freq is None:
                refused = True
            else:
                length = p['beta'] * C / freq * p['n']
                want.add(name, 'rfca', {'l': length, 'volt': p['volt'] * length, 'phase': p['phase'] + 90, 'frequency': freq})
                ctx.count('cells')
        elif kind == 'DTL_CEL':
            want.add(name + 'a', 'quadrupole', {'l': p['lq1'], 'k1': p['b1']})
            want.add(name + 'b', 'rfca', {'l': p['l'] - p['lq1'] - p['lq2'], 'volt': p['volt'], 'phase': p['phase'] + 90,
                                          'frequency': 1.0 if freq is None else freq})
            want.add(name + 'c', 'quadrupole', {'l': p['lq2'], 'k1': p['b2']})
            ctx.count('cells')
        else:
            want.add(name, type_, p)
        s = rng.choice(['', ' ', '\t']) + mixcase(ctx, kind) + ''.join((rng.choice([' ', '  ', '\t']) if j == 0 or not commas else rng.choice([', ', ',', ' , ', ' '])) + t
                                                                           for j, (t, _) in enumerate(values))
        if file:
            s += rng.choice([' ', '\t']) + mixcase(ctx, file)
        text += s + tail(ctx, ';') + '\n'
    text = finish(ctx, text)
    ctx.case(text, {'tracewin': text}, nontrivial=len(want.seq) > 1)
    what = 'TraceWin %r' % text
    path = ctx.write(text, '.dat')
    out = ctx.call(lambda: TraceWin(path, given))
    if not ctx.expect_ok(out, 'parse', what):
        return
    parser = out.value
    yield
    out = ctx.call(parser, steps=60_000_000)
    if refused:
        ctx.count('refused')
        ctx.check(isinstance(out.error, Exception), 'refused', 'NCELLS without frequency has no length, but %s' % what)
        return ctx.drop(path)
    if not ctx.expect_ok(out, 'parse', what):
        return
    ctx.check(not out.written, 'writes', 'parser opens files for writing: %s' % out.written)
    ctx.count('tracewin')
    first = out.value
    if not verify(ctx, first, want, what, False):
        return
    ctx.again('parse-kept', 'a lattice parsed before', lambda: (
        [(e.name, e.type, dict(e.parameters.items())) for e in first.get_beamline_elements()]))
    yield
    if rng.random() < (0.8 if late else 0.3):
        ctx.count('reused')
        out = ctx.call(parser, steps=60_000_000)
        if ctx.expect_ok(out, 'reuse', what):
            verify(ctx, out.value, want, 'second use, %s' % what, False)
    ctx.drop(path)


def refused(ctx):
    from rsbeams.rslattice.trace3d_parser import Trace3d, TraceWin
    for cls, text in ((Trace3d, "cmt(1)='x' nt(1)=77 a(1,1)= 1\n"), (TraceWin, 'DRIFT 10 20\nUNKNOWN 1 2\n'), (TraceWin, 'SOLENOID 1 2 3\n')):
        path = ctx.write(text, '.dat')
        ctx.count('refused')
        ctx.case(('refused', text), {'lattice': text})
        out = ctx.call(lambda: cls(path, 'l')())
        ctx.check(isinstance(out.error, Exception), 'accepted', 'an element that is not supported is dropped: %r' % text)


def both(ctx):
    yield from trace3d(ctx)
    yield
    yield from tracewin(ctx)


def run(ctx):
    rng = ctx.rng
    for i in ctx.cases(8, 20):
        refused(ctx)
    for i in ctx.cases(260, 3200):
        ctx.interleave(rng.choice([both, trace3d, tracewin]))
