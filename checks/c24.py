"""C24: elegant lattice files."""
import os

from mon.lattices import compare
from mon.lte import Lattice, mixcase

MODULES = ['rsbeams.rslattice.lte_parser']
TECHNIQUE = 'reference monitor: each parse is compared with the model the text was generated from; file audit; repeated and interleaved use of parsers'
RULE = ('Random lattices (elements with 0 to 9 parameters, names that are prefixes of each other, quoted names, variables, repeated, grouped and nested '
        'lines) rendered with random case, white space, comments, continuation lines, order of statements and line ends; parsed for several lines, '
        'with new and used parsers.  Non-trivial: at least two elements in the line; distinct by text.')
ASSUMPTIONS = ['no nested parentheses, reversal, or commas, equal signs and exclamation marks in strings; lower case results (limits of the parser)']
REQUIRE = {'parsed': 300, 'parameters': 1000, 'continued': 50, 'nested': 100, 'reused': 60, 'refused': 20, 'variables': 100, 'cases_at_once': 50, 'file_names_used_again': 50}


def check_line(ctx, got, lat, name, given, what):
    want = lat.expect(name, given)
    with ctx.oracle('parse'):
        names = [e.name for e in got.get_beamline_elements()]
        flat = [e.name for e in want.flat()]
        if not ctx.check(names == flat, 'sequence', '%s gives %s, expected %s' % (what, names[:50], flat[:50])):
            return
        compare(ctx, 'parse', got, want, what)
        ctx.count('parameters', sum(len(e.p) for e in want.elements.values()))
        ctx.count('nested', int(bool(want.lines)))
        lengths = [e.length() for e in want.flat()]
        ctx.check(abs(got.length - sum(lengths)) <= 1e-9 * sum(map(abs, lengths)), 'length', '%s: length %r, expected %r' % (what, got.length, sum(lengths)))


def case(ctx):
    from rsbeams.rslattice.lte_parser import BeamlineParser
    rng = ctx.rng
    lat = Lattice(ctx)
    path = ctx.write(lat.text, rng.choice(['.lte', '', '.txt']))
    names = [n for n in lat.items if lat.flat_count(n) <= 1000]
    if not names:
        return
    ctx.count('continued', int('&' in lat.text))
    ctx.count('variables', len(lat.variables))
    name = rng.choice([names[-1], rng.choice(names)])
    given = mixcase(ctx, name)
    ctx.case(lat.text, {'lattice': lat.text, 'line': given}, nontrivial=lat.flat_count(name) > 1)
    what = 'line %r of lattice %r' % (given, lat.text)
    out = ctx.call(BeamlineParser, path, given)
    if not ctx.expect_ok(out, 'parse', what):
        return
    parser = out.value
    yield
    ctx.check(not out.written, 'writes', 'parser opens files for writing: %s' % out.written)
    with ctx.oracle('variables'):
        got = {k: v for k, v in parser.rpn_variables.items()}
        ctx.check(set(got) == set(lat.variables) and all(abs(got[k] - v) <= 1e-12 * abs(v) for k, v in lat.variables.items()), 'variables',
                  'variables are %s, expected %s in %r' % (got, lat.variables, lat.text))
    out = ctx.call(parser, steps=60_000_000)
    if not ctx.expect_ok(out, 'parse', what):
        return
    ctx.count('parsed')
    first = out.value
    ctx.again('parse-kept', 'a beamline parsed before', lambda: (
        [(e.name, e.type, dict(e.parameters)) for e in list(first.get_beamline_elements())[:200]]))
    check_line(ctx, first, lat, name, given, what)
    for _ in range(rng.choice([0, 0, 1, 2])):
        yield
        if ctx.violations:
            return
        ctx.count('reused')
        if rng.random() < 0.6:
            name = rng.choice(names)
            given = mixcase(ctx, name)
            if not ctx.expect_ok(ctx.call(parser.set_beamline, given), 'set', 'set_beamline'):
                return
        out = ctx.call(parser, steps=60_000_000)
        if not ctx.expect_ok(out, 'reuse', 'second use of the parser for %s' % what):
            return
        check_line(ctx, out.value, lat, name, given, 'second use of a parser for line %r, %r' % (given, lat.text))
    if rng.random() < 0.2:
        ctx.count('refused')
        out = ctx.call(lambda: BeamlineParser(path, 'not_a_line')())
        ctx.check(isinstance(out.error, Exception), 'accepted', 'a line that is not defined is parsed')
    with open(path, newline='') as f:
        ctx.check(f.read() == lat.text, 'file', 'the lattice file has been changed')
    ctx.drop(path)


def refused(ctx):
    from rsbeams.rslattice.lte_parser import BeamlineParser
    for text in ('q: quad, l=1\nl: line=(q, r)\n', 'l: line=(q)\n', 'qq: quad\nl: line=(q)\n', 'q: quad\nl: line=(qq)\n'):
        path = ctx.write(text, '.lte')
        ctx.count('refused')
        ctx.case(('refused', text), {'lattice': text})
        out = ctx.call(lambda: BeamlineParser(path, 'l')())
        ctx.check(isinstance(out.error, Exception), 'accepted', 'an element that is not defined is accepted: %r' % text)
    out = ctx.call(lambda: BeamlineParser(os.path.join(ctx.scratch, 'missing.lte'), 'l')())
    ctx.check(isinstance(out.error, Exception), 'accepted', 'a file that does not exist is parsed')


def run(ctx):
    for i in ctx.cases(3, 20):
        refused(ctx)
    for i in ctx.cases(250, 3000):
        ctx.interleave(case)
