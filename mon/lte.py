"""Generator of elegant lattice files from a model, and an independent evaluator of RPN programs."""
import math

from mon.lattices import Line

OPS = ['+', '-', '*', '/', 'mult', 'sqrt']


def number_text(ctx, v=None, fortran=False):
    rng = ctx.rng
    if v is None:
        v = rng.choice([0, 1, -1, 2, 0.5, rng.uniform(-5, 5), rng.uniform(0, 1) * 10 ** rng.randint(-12, 12), rng.randrange(1000)])
    forms = [repr(v), repr(float(v)), '%.17e' % v, '%.17E' % v]
    if v == int(v) and abs(v) < 1e6:
        forms += ['%d' % v, '%d.' % v]
    if 0 < abs(v) < 1 and repr(float(v)).startswith('0.'):
        forms.append(repr(float(v))[1:])
    t = rng.choice(forms)
    if fortran and rng.random() < 0.3:
        t = t.replace('e', rng.choice('dD')).replace('E', rng.choice('dD'))
    if v >= 0 and rng.random() < 0.1 and not t.startswith('-'):
        t = '+' + t
    return t, float(v)


class Failed(Exception):
    pass


def program(ctx, depth, variables=None):
    """(tokens, value) of a random expression tree; value by direct recursion."""
    rng = ctx.rng
    if depth == 0 or rng.random() < 0.2:
        k = rng.random()
        if variables and k < 0.35:
            n = rng.choice(list(variables))
            return [n], variables[n]
        if k < 0.45:
            return ['pi'], math.pi
        t, v = number_text(ctx)
        return [t], v
    op = rng.choice(OPS)
    a, x = program(ctx, depth - 1, variables)
    if op == 'sqrt':
        if x < 0:
            return a, x
        return a + ['sqrt'], math.sqrt(x)
    b, y = program(ctx, rng.randrange(depth), variables)
    if op == '/' and y == 0:
        op = '+'
    v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, 'mult': lambda: x * y, '/': lambda: x / y}[op]()
    if not math.isfinite(v):
        return a, x
    return a + b + [op], v


def words(ctx):
    return ctx.rng.choice(['w1', 'kicker', 'pipe', 'l1x', 'k.w1', '%s.w1', '%s.cen', 'mode_a', 'x', 'vec', 'edge', 'q1.k', 'pi_x', 'a b', 'spin', '', 'w.sdds=t+v', 'a:b', 'wake.x:quad', '1_0', '1_2', 'nan', 'inf', 'infinity', '2pi', 'pi2', '-inf', '1e_3', '12_'])


def mixcase(ctx, s):
    k = ctx.rng.randrange(4)
    if k == 0:
        return s.upper()
    if k == 1:
        return s
    if k == 2:
        return s.lower()
    return ''.join(ctx.rng.choice([c.upper(), c.lower()]) for c in s)


class Lattice:
    """Random lattice: .text, .elements {name: (type, params)}, .lines {name: items}, .variables {name: value}."""
    ENAMES = ['q', 'q1', 'q10', 'q1.a', 'd_1', 'qf-2', 'b$1', 'm#3', 'line', 'lin', 'drift', 'k1', 'w', 'x0y', '1q', 'c:1', 'e=', 'mult']
    VNAMES = ['l1', 'k', 'lq', 'k1', 'l', 'ang', 'x.y', 'q1', 'quad', 'drif', 'ee', 'a_b', 'v10', 'v1', 'w.cen', 'e1']
    PNAMES = ['l', 'k1', 'k2', 'angle', 'e1', 'n_kicks', 'filename', 'mode', 'group', 'tilt', 'order', 'hgap', 'x']
    TYPES = ['quad', 'drif', 'csbend', 'watch', 'mark', 'kquad', 'rfca', 'twiss', 'line_x']

    def __init__(self, ctx, variables=None):
        rng = ctx.rng
        self.ctx = ctx
        self.variables = {}
        self.vtext = []
        # Now and then there are many more statements
        self.large = rng.random() < 0.03
        ctx.count('large_lattices', int(self.large))
        more = ['w%d' % i for i in range(rng.choice([40, 120]))] if self.large and variables is None else []
        for n in more + rng.sample(self.VNAMES, rng.choice([0, 0, 1, 3, 6]) if variables is None else variables):
            # a definition may use variables before it, and may also use what looks like itself nowhere
            tokens, v = program(ctx, rng.choice([0, 1, 2, 4]), dict(self.variables) or None)
            self.variables[n] = v
            self.vtext.append('%s%%%s%s %s %s%s' % (rng.choice(['', '', '  ']), rng.choice([' ', '  ', '\t']),
                                                   rng.choice([' ', '  ', '\t']).join(tokens), mixcase(ctx, 'sto'), n, rng.choice(['', ' ', ' ! set'])))
        self.vtext = [mixcase(ctx, t) if '%s' not in t else t for t in self.vtext]
        names = [n for n in self.ENAMES if n != 'e=']
        self.elements = {}
        more = ['u%d' % i for i in range(rng.choice([60, 150, 300]))] if self.large else []
        for n in rng.sample(names, rng.choice([1, 3, 6, 10])) + more:
            p, t = {}, []
            for key in rng.sample(self.PNAMES, rng.choice([0, 1, 2, 4, 9])):
                v, text = self.value(key)
                p[key] = v
                t.append((key, text))
            self.elements[n] = (rng.choice(self.TYPES), p, t)
        self.lines, self.items = {}, {}
        lnames = rng.sample(['ring', 'arc', 'cell', 'c1', 'c10', 'top.l', 'half_cell', 'arc-2'], rng.choice([1, 2, 4, 6]))
        for i, n in enumerate(lnames):
            self.items[n] = self.members(lnames[:i], 2)
            if self.large and i < 2:
                self.items[n] += [(None, rng.choice(more)) for _ in range(rng.choice([20, 120]))]
        self.text = self.render()

    def value(self, key):
        rng, ctx = self.ctx.rng, self.ctx
        k = rng.random()
        if key in ('filename', 'mode', 'group'):
            w = words(ctx)
            while w in self.variables or any(x in self.variables for x in w.split()):
                w = words(ctx)
            if ' ' in w or w == '' or rng.random() < 0.6:
                return w, '"%s"' % w
            return w, w
        if k < 0.45:
            t, v = number_text(ctx)
            return v, rng.choice([t, t, '"%s"' % t])
        if k < 0.6 and self.variables:
            n = rng.choice(list(self.variables))
            return self.variables[n], rng.choice(['"%s"', '%s', "'%s'"]) % n
        tokens, v = program(ctx, rng.choice([1, 2, 3]), self.variables or None)
        return v, '"%s%s%s"' % (rng.choice(['', '', ' ']), rng.choice([' ', ' ', '  ', '\t', ' \t ']).join(tokens), rng.choice(['', '', ' ']))

    def members(self, lines, groups):
        rng = self.ctx.rng
        out = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            k = rng.random()
            name = rng.choice(lines) if lines and rng.random() < 0.4 else rng.choice(list(self.elements))
            if groups and k < 0.15:
                out.append((rng.choice([1, 2, 3]), self.members(lines, groups - 1)))
            elif k < 0.35:
                out.append((rng.choice([1, 2, 2, 3, 10, 12, rng.choice([40, 100, 123])] if name in self.elements else [1, 2, 3]), name))
            else:
                out.append((None, name))
        return out

    # -- text ---------------------------------------------------------------------------------------------------
    def sp(self, chance=0.25):
        return self.ctx.rng.choice([' ', '  ', '\t']) if self.ctx.rng.random() < chance else ''

    def ref(self, n):
        # names that start with a digit have to be quoted
        if n[0].isdigit() or self.ctx.rng.random() < 0.25:
            return ('"%s"' if self.ctx.rng.random() < 0.7 else "'%s'") % mixcase(self.ctx, n)
        return mixcase(self.ctx, n)

    def item(self, it):
        n, what = it
        body = '(' + self.sp() + self.join([self.item(w) for w in what]) + self.sp() + ')' if isinstance(what, list) else self.ref(what)
        return body if n is None else '%d%s*%s%s' % (n, self.sp(0.15), self.sp(0.15), body)

    def join(self, parts):
        return ','.join(self.sp() + p + self.sp(0.1) for p in parts)

    def wrap(self, s):
        """Break a statement at some commas, and at blanks of expressions, by continuation lines."""
        rng = self.ctx.rng
        if rng.random() < 0.5:
            return s
        out, quoted = '', False
        for i, c in enumerate(s):
            # text with blanks would change if it was broken
            rpn = quoted and set(s[s.rindex('"', 0, i) + 1:(s + '"').index('"', i)].split()) & {'+', '-', '*', '/', 'mult', 'sqrt'}
            out += c
            quoted ^= c == '"'
            blank = quoted and c == ' ' and rpn and rng.random() < 0.2
            if blank or c == ',' and not quoted and rng.random() < 0.4:
                out += self.sp() + '&' + rng.choice(['', ' ', ' ! more', '! x: line=(a,b)']) + '\n'
                if rng.random() < 0.15:
                    out += rng.choice(['! in between &\n', '\n', '   ! k=1, l: line=(q)\n'])
                out += rng.choice(['', '   ', '\t']) if not blank else rng.choice(['', '   '])
        return out

    def render(self):
        rng = self.ctx.rng
        st = []
        for n, (t, p, texts) in self.elements.items():
            name = self.ref(n)
            s = self.sp(0.15) + name + self.sp(0.1) + ':' + self.sp(0.6) + mixcase(self.ctx, t) + self.sp(0.1)
            for k, v in texts:
                s += ',' + self.sp(0.5) + mixcase(self.ctx, k) + self.sp(0.15) + '=' + self.sp(0.15) + v + self.sp(0.1)
            st.append(self.wrap(s))
        rng.shuffle(st)
        lines = []
        for n, items in self.items.items():
            name = '"%s"' % mixcase(self.ctx, n) if rng.random() < 0.2 else mixcase(self.ctx, n)
            lines.append(self.wrap('%s%s%s:%s%s%s=%s(%s%s)' % (self.sp(0.1), name, self.sp(0.2), self.sp(0.6), mixcase(self.ctx, 'line'), self.sp(0.3),
                                                                self.sp(0.3), self.join([self.item(i) for i in items]), self.sp())))
        if rng.random() < 0.3:
            rng.shuffle(lines)
        # variables keep their order; where they stand does not matter
        rest = st + lines
        if rng.random() < 0.3:
            rng.shuffle(rest)
        pos = sorted(rng.randrange(len(rest) + 1) if rng.random() < 0.3 else 0 for _ in self.vtext)
        out = []
        for i in range(len(rest) + 1):
            out += [v for v, q in zip(self.vtext, pos) if q == i]
            if i < len(rest):
                out.append(rest[i])
        text = ''
        for s in out:
            if rng.random() < 0.2:
                text += rng.choice(['! comment\n', '\n', '   \n', '! q1: quad, l=99 &\n', '!\n', '! ring: line=(x)\n', '\t! % 1 sto l\n'])
            text += s + rng.choice(['', '', '', ' ', ' ! end', '!']) + '\n'
        if rng.random() < 0.3:
            text = text[:-1]
        if rng.random() < 0.15:
            text = text.replace('\n', '\r\n')
        return text

    # -- expectation --------------------------------------------------------------------------------------------
    def expect(self, name, given):
        top = Line(given)

        def fill(line, items):
            for n, what in items:
                for _ in range(1 if n is None else n):
                    if isinstance(what, list):
                        fill(line, what)
                    elif what in self.items:
                        new = what not in line.lines
                        sub = line.line(what)
                        if new:
                            fill(sub, self.items[what])
                    else:
                        t, p, _ = self.elements[what]
                        line.add(what, t, p)
            return line
        return fill(top, self.items[name])

    def flat_count(self, name):
        def size(items):
            return sum((1 if n is None else n) * (size(w) if isinstance(w, list) else size(self.items[w]) if w in self.items else 1) for n, w in items)
        return size(self.items[name])
