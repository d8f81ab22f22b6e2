"""C25: RPN expressions and variables."""
import math
import re

from mon.lte import OPS, Lattice, mixcase, number_text, program

MODULES = ['rsbeams.rslattice.lte_parser']
TECHNIQUE = 'reference monitor: values observed are compared with direct evaluation of the expression trees the programs were generated from'
RULE = ('Random expression trees (depth to 7, all operators, pi, numbers in all formats, quotes, blanks) evaluated alone and as chains of up to eight '
        'variables whose names are part of other names, types, parameters and strings of the same lattice; programs that lack operands or have '
        'unknown words.  Non-trivial: at least one operator; distinct by program.')
REQUIRE = {'expressions': 1500, 'operators': 5000, 'chains': 150, 'chained_variables': 200, 'substituted': 800, 'refused': 100, 'undefined': 80, 'file_names_used_again': 40, 'tabs': 100}
CLOSE = 1e-13


def close(a, b):
    return a == b or abs(a - b) <= CLOSE * max(abs(a), abs(b))


def expressions(ctx):
    from rsbeams.rslattice.lte_parser import parse_rpn
    rng = ctx.rng
    for _ in range(10):
        tokens, want = program(ctx, rng.choice([0, 1, 2, 3, 5, 7]))
        text = rng.choice([' ', ' ', '  ', '\t', ' \t']).join(tokens)
        ctx.count('tabs', '\t' in text)
        text = rng.choice(['%s', '"%s"', "'%s'", ' %s ', '%s\n', '" %s "']) % text
        ctx.count('expressions')
        ctx.count('operators', sum(t in ('+', '-', '*', '/', 'mult', 'sqrt') for t in tokens))
        ctx.case(('rpn', text), {'expression': text, 'value': want}, nontrivial=len(tokens) > 1)
        out = ctx.call(parse_rpn, text)
        if not ctx.expect_ok(out, 'rpn', 'parse_rpn(%r)' % text):
            return
        if rng.random() < 0.05:
            ctx.again('rpn-kept', 'parse_rpn(%r)' % text, lambda text=text: parse_rpn(text))
        with ctx.oracle('rpn'):
            ctx.check(close(float(out.value), want), 'rpn', 'parse_rpn(%r) is %r, expected %r' % (text, out.value, want))
        # order of operands, bit by bit
        a, b = number_text(ctx), number_text(ctx)
        for op, v in (('-', a[1] - b[1]), ('+', a[1] + b[1]), ('*', a[1] * b[1]), ('mult', a[1] * b[1]), ('/', a[1] / b[1] if b[1] else None)):
            if v is not None:
                out = ctx.call(parse_rpn, '%s %s %s' % (a[0], b[0], op))
                ctx.check(out.ok and out.value == v, 'rpn', '%s %s %s is %r, expected %r' % (a[0], b[0], op, out.value if out.ok else out.why(), v))


def refused(ctx):
    from rsbeams.rslattice.lte_parser import parse_rpn
    rng = ctx.rng
    for text in ('', ' ', '+', '1 +', 'sqrt', '1 2 + -', 'foo', '1 foo +', '1 2 foo', '1 2 ++', '1,', '1 2 + *', 'mult', '3 4 5 + + +', '1 2 add3', '1e', '--1'):
        ctx.count('refused')
        ctx.case(('refused', text), {'expression': text})
        out = ctx.call(parse_rpn, rng.choice(['%s', '"%s"', ' %s']) % text)
        ctx.check(isinstance(out.error, Exception), 'accepted', 'parse_rpn(%r) gives %r' % (text, out.value))
    # values below the top of the stack do not count
    for _ in range(6):
        (under, _), (tokens, want) = program(ctx, 2), program(ctx, rng.choice([0, 1, 3]))
        text = ' '.join(under + tokens)
        ctx.count('tops')
        ctx.case(('top', text), {'expression': text, 'value': want})
        out = ctx.call(parse_rpn, text)
        if ctx.expect_ok(out, 'rpn', 'parse_rpn(%r)' % text):
            ctx.check(close(float(out.value), want), 'rpn', 'parse_rpn(%r) is %r, expected %r' % (text, out.value, want))
    # nothing brings an undefined root back
    for _ in range(10):
        tokens, _ = program(ctx, rng.choice([1, 2, 3, 5]))
        leaves = [i for i, t in enumerate(tokens) if t not in OPS]
        i = rng.choice(leaves)
        tokens[i:i + 1] = [number_text(ctx, -10 ** rng.uniform(-3, 3))[0], 'sqrt']
        text = ' '.join(tokens)
        ctx.count('undefined')
        ctx.case(('undefined', text), {'expression': text})
        out = ctx.call(parse_rpn, text)
        ctx.check(isinstance(out.error, Exception) or (out.ok and not math.isfinite(out.value)), 'undefined', 'parse_rpn(%r) gives %r' % (text, out.value))
    # quotients by zero and roots of negative numbers have no finite value
    for _ in range(10):
        a = number_text(ctx)[0]
        text = rng.choice(['%s 0 /', '%s 0.0 /', '%s 2 2 - /', '%s 0 5 * /', '1 %s 1 1 - / +', '%s 0 sqrt /', '0 0 /', '-1 sqrt %s +', '2 3 - sqrt',
                           '%s 0 / 0 *'])
        text = text % a if '%' in text else text
        ctx.count('undefined')
        ctx.case(('undefined', text), {'expression': text})
        out = ctx.call(parse_rpn, text)
        ctx.check(isinstance(out.error, Exception) or (out.ok and not math.isfinite(out.value)), 'undefined', 'parse_rpn(%r) gives %r' % (text, out.value))


def chain(ctx):
    """Variables of a lattice, and their use in elements."""
    from rsbeams.rslattice.lte_parser import BeamlineParser
    rng = ctx.rng
    lat = Lattice(ctx, rng.choice([1, 2, 4, 8]))
    path = ctx.write(lat.text, '.lte')
    ctx.count('chains')
    used = sum(bool(re.search(r'(?<![\w.])%s(?![\w.])' % re.escape(n), t, re.I)) for t in lat.vtext for n in lat.variables) - len(lat.variables)
    ctx.count('chained_variables', max(0, used))
    ctx.case(lat.text, {'lattice': lat.text, 'variables': lat.variables})
    line = list(lat.items)[-1]
    out = ctx.call(BeamlineParser, path, mixcase(ctx, line))
    if not ctx.expect_ok(out, 'variables', 'lattice %r' % lat.text):
        return
    parser = out.value
    with ctx.oracle('variables'):
        got = dict(parser.rpn_variables)
        ctx.check(set(got) == set(lat.variables), 'variables', 'variables are %s, expected %s' % (sorted(got), sorted(lat.variables)))
        for n, v in lat.variables.items():
            ctx.check(close(got[n], v), 'variables', 'variable %s is %r, expected %r in %r' % (n, got[n], v, lat.text))
    if lat.flat_count(line) > 600:
        return
    out = ctx.call(parser)
    if not ctx.expect_ok(out, 'substitute', 'lattice %r' % lat.text):
        return
    with ctx.oracle('substitute'):
        for e in out.value.get_beamline_elements():
            t, p, texts = lat.elements[e.name]
            if not ctx.check(e.type == t and set(e.parameters) == set(p), 'substitute', 'element %s is %r with %s, expected %r with %s'
                             % (e.name, e.type, sorted(e.parameters), t, sorted(p))):
                return
            for k, v in p.items():
                g = e.parameters[k]
                ctx.count('substituted')
                if not ctx.check(g == v if isinstance(v, str) else isinstance(g, float) and close(g, v), 'substitute',
                                 'parameter %s of %s is %r, expected %r in %r' % (k, e.name, g, v, lat.text)):
                    return
    ctx.drop(path)


def run(ctx):
    for i in ctx.cases(200, 4000):
        expressions(ctx)
    for i in ctx.cases(8, 40):
        refused(ctx)
    for i in ctx.cases(200, 3000):
        chain(ctx)
