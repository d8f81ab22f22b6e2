"""Models of lattices: nested lists of elements, random values, and comparison with StructuredBeamline objects."""


class Line:
    """Model of a StructuredBeamline: named elements and lines are shared within one level."""

    def __init__(self, name):
        self.name, self.seq, self.elements, self.lines = name, [], {}, {}

    def flat(self):
        out = []
        for e in self.seq:
            out += e.flat() if isinstance(e, Line) else [e]
        return out

    def add(self, name, type_, params):
        if name not in self.elements:
            self.elements[name] = El(name, type_, params)
        self.seq.append(self.elements[name])

    def line(self, name):
        if name not in self.lines:
            self.lines[name] = Line(name)
        self.seq.append(self.lines[name])
        return self.lines[name]

    def shape(self):
        return [e.shape() if isinstance(e, Line) else e.name for e in self.seq]


class El:
    def __init__(self, name, type_, params):
        self.name, self.type = name, type_.strip().lower()
        self.p = {k.lower(): v for k, v in params.items()}

    def length(self):
        return float(self.p['l']) if 'l' in self.p else 0.0


def length(ctx, strings=True):
    rng = ctx.rng
    v = rng.choice([0, 1, 0.0, 0.1, rng.uniform(0, 10), 10 ** rng.uniform(-9, 5), rng.randrange(5), -rng.uniform(0, 3)])
    if strings and rng.random() < 0.15:
        v = rng.choice([repr(v), ' %r ' % v, '%.3e' % v])
    return v


def value(ctx):
    rng = ctx.rng
    return rng.choice([0, 1, -1, 0.1, -0.0, 1e300, 5e-324, 10 ** 20, True, False, None, '', 'file.sdds', 'a b', '1e5', 'yes', 'null', '0x10', '- a',
                       'a: b', '#x', "it's", 'a "q"', 'line\nbreak', 'é', rng.uniform(-1, 1), 10 ** rng.uniform(-12, 12), rng.randrange(-99, 99),
                       float('inf'), [1, 2.5], ['x']])


def spelling(ctx, key):
    return ctx.rng.choice([key, key.upper(), key.lower(), key.capitalize(), ''.join(ctx.rng.choice([c.upper(), c.lower()]) for c in key)])


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and (a == b or (a != a and b != b)) and (not isinstance(a, float) or str(a) == str(b) or a != 0)


def compare(ctx, mech, got, want, what, names=True, types=True):
    """Structure, names, types and parameters of a beamline against the model."""
    g, w = list(got.sequence), want.seq
    if not ctx.check(len(g) == len(w), mech, '%s: line %s has %d members, expected %d: %s' % (what, want.name, len(g), len(w), want.shape())):
        return False
    if names:
        ctx.check(got.name == want.name, mech, '%s: line %r should be %r' % (what, got.name, want.name))
    for i, (a, b) in enumerate(zip(g, w)):
        if isinstance(b, Line):
            if not ctx.check(hasattr(a, 'sequence'), mech, '%s: member %d of %s should be line %s' % (what, i, want.name, b.name)):
                return False
            if not compare(ctx, mech, a, b, what, names, types):
                return False
        else:
            if not ctx.check(not hasattr(a, 'sequence') and a.name == b.name, mech, '%s: member %d of %s is %r, expected %r'
                             % (what, i, want.name, getattr(a, 'name', a), b.name)):
                return False
            if types:
                ctx.check(a.type == b.type, mech, '%s: type of %s is %r, expected %r' % (what, b.name, a.type, b.type))
            p = dict(a.parameters.items())
            if not ctx.check(set(p) == set(b.p) and all(same(p[k], b.p[k]) for k in b.p), mech, '%s: parameters of %s are %s, expected %s'
                             % (what, b.name, p, b.p)):
                return False
    return True
