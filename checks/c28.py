"""C28: conversion of lattices to Warp."""
import math
import os
import sys
import types

from pykern.pkcollections import PKDict


def _build_field_map(field_map):
    """The part of Sirepo's function that the writer uses: type -> name in the other code and its fields."""
    res = PKDict()
    for sim, entries in field_map.items():
        to = PKDict()
        for entry in entries:
            for fields in entry[1:]:
                to[fields[0]] = [entry[0]] + list(fields[1:])
        res[sim] = PKDict(to_madx=to, from_madx=PKDict())
    return res


class Importer:
    """Sirepo is not installed: its file reader is replaced by one that delivers the generated models."""
    models = {}

    def __init__(self, sim_type, *args):
        self.sim_type = sim_type

    def parse_file(self, path):
        if self.sim_type != 'elegant':
            raise AssertionError('wrong simulation type %r' % self.sim_type)
        return self.models[str(path)]


for name in ('sirepo', 'sirepo.lib', 'sirepo.template', 'sirepo.template.madx_converter'):
    if name not in sys.modules:
        sys.modules[name] = types.ModuleType(name)
sys.modules['sirepo'].lib, sys.modules['sirepo'].template = sys.modules['sirepo.lib'], sys.modules['sirepo.template']
sys.modules['sirepo.template'].madx_converter = sys.modules['sirepo.template.madx_converter']
sys.modules['sirepo.lib'].Importer = Importer
sys.modules['sirepo.template.madx_converter']._build_field_map = _build_field_map

MODULES = ['rsbeams.rslattice.formatted_writer', 'rsbeams.pkcli.lattice']
TECHNIQUE = ('reference monitor: the written script is executed with recording stand-ins for Warp, and the recorded beamline is compared with the '
             'expansion of the model and closed forms of rigidity and radius; file audit')
RULE = ('Random elegant models (all mapped and some unmapped types, nested, repeated and reversed lines, numbers as text, variables), momenta from '
        '0.01 MeV/c to 1 TeV/c, converted by the command and by a writer that is used several times.  Non-trivial: at least two elements; '
        'distinct by model.')
ASSUMPTIONS = ['Sirepo is not installed: its reader and field map are stand-ins', 'names are Python identifiers, angles of bends are not zero']
REQUIRE = {'conversions': 200, 'quads': 200, 'bends': 200, 'sextupoles': 100, 'drifts': 200, 'other': 200, 'rewritten': 100, 'refused': 5, 'repeats': 100, 'cases_at_once': 50, 'file_names_used_again': 50}
C = 299792458.0
M_E = 0.51099895069e6
DRIFTS = ['DRIF', 'CSRDRIFT', 'EDRIFT', 'LSCDRIFT']
BENDS = ['CSBEND', 'SBEN', 'CSRCSBEND', 'KSBEND', 'NIBEND', 'RBEN', 'TUBEND']
QUADS = ['QUAD', 'KQUAD']
SEXTS = ['SEXT', 'KSEXT']
OTHER = ['MARK', 'WATCH', 'RFCA', 'HKICK', 'MONI', 'CHARGE', 'SOLE']


def text(ctx, v):
    return ctx.rng.choice([v, v, repr(v), str(v)])


def number(ctx, cache, size, positive=False):
    """(as stored, value)"""
    rng = ctx.rng
    if cache and rng.random() < 0.15:
        k = rng.choice(sorted(cache))
        if not positive or float(cache[k]) > 0:
            return k, float(cache[k])
    v = rng.choice([rng.uniform(-1, 1) * size, size * 10 ** rng.uniform(-6, 1), size, 0.0 if not positive else size])
    if positive:
        v = abs(v) or size
    return text(ctx, v), float(v)


def model(ctx):
    rng = ctx.rng
    cache = {'k1f': 0.25, 'a b +': -3, 'ldr': 1.5, '2 pi *': 6.283185307179586} if rng.random() < 0.6 else {}
    ne, nb = ctx.size([1, 3, 8, 20], 200), rng.choice([1, 2, 4])
    ids = rng.sample(range(1, 1400), ne + nb)
    elements, phys = [], {}
    for i in ids[:ne]:
        kind = rng.choice(['drift', 'bend', 'quad', 'sext', 'other', 'drift', 'quad'])
        type_ = rng.choice({'drift': DRIFTS, 'bend': BENDS, 'quad': QUADS, 'sext': SEXTS, 'other': OTHER}[kind])
        name = rng.choice(['E%d', 'Q%d', 'ELEM_%d', 'e%d', 'Qf_%d', 'A_RATHER_LONG_NAME_OF_AN_ELEMENT_WITH_NUMBER_%d']) % i
        e = {'_id': i, 'name': name, 'type': type_}
        p = {'kind': kind, 'name': name.upper()}
        if kind != 'other' or rng.random() < 0.5:
            e['l'], p['l'] = number(ctx, cache, 1, positive=kind == 'bend')
        else:
            p['l'] = 0.0
        for k, size in (('angle', 0.5), ('k1', 5), ('k2', 50)):
            if {'angle': 'bend', 'k1': 'quad', 'k2': 'sext'}[k] == kind or rng.random() < 0.3:
                e[k], p[k] = number(ctx, cache, size)
                if k == 'angle' and p[k] == 0:
                    e[k], p[k] = '0.1', 0.1
        if rng.random() < 0.3:
            e['filename'] = 'a.sdds'
        elements.append(e)
        phys[i] = p
    lines = []
    for j, i in enumerate(ids[ne:]):
        items = []
        for _ in range(ctx.size([1, 2, 3, 6], 120) if j == 0 else rng.choice([1, 2, 3, 6])):
            items.append(rng.choice([1, -1]) * rng.choice(ids[ne:ne + j]) if j and rng.random() < 0.4 else rng.choice(ids[:ne]))
        if rng.random() < 0.3:
            items.append(rng.choice(items))
        lines.append({'id': i, 'name': 'LINE%d' % i, 'items': items})
    return elements, lines, phys, cache


def expand(items, lines, reverse=False):
    out = []
    by = {b['id']: b['items'] for b in lines}
    for it in (reversed(items) if reverse else items):
        if abs(it) in by:
            out += expand(by[abs(it)], lines, reverse != (it < 0))
        else:
            out.append(it)
    return out


class Part:
    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def __add__(self, other):
        return Seq([self]) + other


class Seq:
    def __init__(self, parts):
        self.parts = parts

    def __add__(self, other):
        return Seq(self.parts + (other.parts if isinstance(other, Seq) else [other]))


def execute(ctx, script, line):
    """Run a script with recording stand-ins: (sequence, {name: part}, number of definitions)."""
    made = []

    class Warp(types.ModuleType):
        def __getattr__(self, kind):
            if kind.startswith('__'):
                raise AttributeError(kind)

            def make(*args, **kw):
                if args:
                    raise TypeError('positional arguments %r' % (args,))
                made.append(Part(kind, kw))
                return made[-1]
            return make
    ns = {}
    old = sys.modules.get('warp')
    sys.modules['warp'] = Warp('warp')
    try:
        exec(compile(script, 'script', 'exec'), ns)
    finally:
        if old is None:
            del sys.modules['warp']
        else:
            sys.modules['warp'] = old
    seq = ns[line]
    names = {id(v): k for k, v in ns.items() if isinstance(v, Part) and k != line}
    return (seq.parts if isinstance(seq, Seq) else [seq]), names, made


def near(a, b, tol=1e-9):
    return isinstance(a, (int, float)) and abs(a - b) <= tol * abs(b)


def verify(ctx, script, line, want, rigidity, what, tol=1e-9):
    with ctx.oracle('script'):
        try:
            seq, names, made = execute(ctx, script, line)
        except Exception as err:
            ctx.fail('script', '%s: the script fails with %r: %s' % (what, err, script))
            return
        got = [names.get(id(p)) for p in seq]
        if not ctx.check(got == [p['name'] for p in want], 'order', '%s: line is %s, expected %s' % (what, got, [p['name'] for p in want])):
            return
        ctx.check(len(made) == len({p['name'] for p in want}), 'definitions', '%s: %d definitions of %d elements' % (what, len(made), len(set(got))))
        for part, p in zip(seq, want):
            kind = {'drift': 'Drft', 'other': 'Drft', 'bend': 'Bend', 'quad': 'Quad', 'sext': 'Sext'}[p['kind']]
            fields = {'l': p['l']}
            if p['kind'] == 'quad':
                fields['db'] = -p['k1'] * rigidity
            elif p['kind'] == 'sext':
                fields['db'] = -p['k2'] * rigidity
            elif p['kind'] == 'bend':
                fields['rc'] = p['l'] / p['angle']
            ctx.check(part.kind == kind, 'type', '%s: %s is a %s, expected %s' % (what, p['name'], part.kind, kind))
            ctx.check(set(part.args) == set(fields) and all(near(part.args[k], v, tol if k == 'db' else 1e-12) for k, v in fields.items()), 'fields',
                      '%s: %s (%s) has %s, expected %s' % (what, p['name'], p['kind'], part.args, fields))
            ctx.count({'quad': 'quads', 'bend': 'bends', 'sext': 'sextupoles', 'drift': 'drifts', 'other': 'other'}[p['kind']])
        ctx.count('repeats', int(len(set(got)) < len(got)))


def commands(ctx, pc):
    rng = ctx.rng
    cmd = [{'_type': 'run_setup', 'p_central_mev': rng.choice([pc, repr(pc)])}]
    for t in rng.sample(['twiss_output', 'bunched_beam', 'track', 'run_control', 'sdds_beam'], rng.choice([0, 2, 4])):
        cmd.insert(rng.randrange(len(cmd) + 1), {'_type': t, 'p_central_mev': '7.5'})
    return cmd


def case(ctx):
    from rsbeams.pkcli.lattice import elegant_to_warp
    rng = ctx.rng
    elements, lines, phys, cache = model(ctx)
    pc = rng.choice([0.511, 5.0, 1000.0, 10 ** rng.uniform(-2, 6)])
    sim = PKDict(models=PKDict(beamlines=[PKDict(b) for b in lines], elements=[PKDict(e) for e in elements], rpnCache=PKDict(cache),
                               commands=[PKDict(c) for c in commands(ctx, pc)]))
    line = rng.choice(lines)
    want = [phys[i] for i in expand(line['items'], lines)]
    source, target = os.path.join(ctx.scratch, rng.choice(['run.ele', 'a.ele', 'f%d.ele' % rng.randrange(99)])), ctx.path('.py')
    Importer.models = {source: sim}
    given = rng.choice([line['name'], line['name'].lower(), line['name'].capitalize()])
    ctx.case((elements, lines, pc, given), {'elements': elements, 'lines': lines, 'p_central_mev': pc, 'line': given}, nontrivial=len(want) > 1)
    what = 'line %s at %r MeV/c' % (given, pc)
    if rng.random() < 0.06:
        ctx.count('refused')
        how = rng.choice(['line', 'setup', 'parameter'])
        if how == 'setup':
            sim.models.commands = [c for c in sim.models.commands if c['_type'] != 'run_setup']
        elif how == 'line':
            given = 'nothing'
        else:
            e = next((e for e in sim.models.elements if e['_id'] in expand(line['items'], lines) and e['type'] in DRIFTS + BENDS + QUADS + SEXTS), None)
            if e is None:
                return
            del e['l']
        out = ctx.call(elegant_to_warp, source, target, given)
        ctx.check(isinstance(out.error, (ValueError, KeyError)), 'accepted', 'conversion without %s: %s' % (how, out.why() if not out.ok else 'accepted'))
        ctx.check(not os.path.exists(target), 'accepted', 'conversion without %s writes a file' % how)
        return
    out = ctx.call(elegant_to_warp, source, target, given)
    if not ctx.expect_ok(out, 'convert', what):
        return
    ctx.check(set(map(os.path.realpath, out.written)) == {os.path.realpath(target)}, 'files', 'files written: %s' % out.written)
    ctx.count('conversions')
    with open(target) as f:
        script = f.read()
    # momentum over charge
    # the mass of the electron is known to 1e-9, slow electrons amplify this
    verify(ctx, script, line['name'], want, pc * 1e6 / C, what, 1e-9 * (1 + 2 * (M_E / pc / 1e6) ** 2))
    ctx.drop(target)


def conversions():
    """The conversion that elegant_to_warp uses; it is no public function and may have another form."""
    import inspect
    import rsbeams.pkcli.lattice as lattice

    def own(line, energy, mass=M_E, flip_sign=False):
        rigidity = math.sqrt(energy ** 2 - mass ** 2) / C * (-1 if flip_sign else 1)
        for e in line.get_beamline_elements():
            p = e.parameters
            if e.type in ('quad', 'kquad'):
                p['db'] = float(p['k1']) * rigidity
            elif e.type in ('sext', 'ksext'):
                p['db'] = float(p['k2']) * rigidity
            elif e.type.upper() in BENDS:
                p['rc'] = float(p['l']) / float(p['angle'])

    found = getattr(lattice, '_parameter_conversions', None)
    if found and list(inspect.signature(found).parameters) == ['beamline', 'energy', 'mass', 'flip_sign']:
        return found
    return own


def writer(ctx):
    """Conversion and writer on beamlines that are built directly: other energies, masses and signs."""
    from rsbeams.rslattice.Beamline import StructuredBeamline
    from rsbeams.rslattice.formatted_writer import WarpWriter
    rng = ctx.rng
    elements, lines, phys, _ = model(ctx)
    if any(isinstance(v, str) and not v.replace('.', '').replace('-', '').replace('e', '').isdigit() for e in elements for k, v in e.items()
           if k in ('l', 'k1', 'k2', 'angle')):
        return
    by = {e['_id']: e for e in elements}
    line = StructuredBeamline('TOP')
    ids = [i for i in expand(lines[-1]['items'], lines)]
    sub = rng.random() < 0.5
    if sub:
        line.add_beamline('SUB')
    for n, i in enumerate(ids):
        e = by[i]
        (line.sequence[0] if sub and n % 2 == 0 else line).add_element(e['name'], e['type'], {k: v for k, v in e.items() if k not in ('name', 'type', '_id')})
    if sub:
        ids = ids[::2] + ids[1::2]
    want = [phys[i] for i in ids]
    ctx.case(('writer', elements, ids), {'elements': elements, 'ids': ids}, nontrivial=len(ids) > 1)
    mass = rng.choice([M_E, 938.27208943e6, 10 ** rng.uniform(4, 11)])
    flip = rng.random() < 0.5
    gamma = 1 + 10 ** rng.uniform(-8 if mass != M_E else -4, 4)
    rigidity = mass * math.sqrt(gamma ** 2 - 1) / C * (1 if flip else -1)
    args = {'energy': gamma * mass, 'mass': mass, 'flip_sign': flip}
    if mass == M_E and rng.random() < 0.5:
        del args['mass']
    if not flip and rng.random() < 0.5:
        del args['flip_sign']
    for _ in range(rng.choice([1, 1, 2])):
        if not ctx.expect_ok(ctx.call(conversions(), line, **args), 'convert', 'conversion of parameters'):
            return
    w = WarpWriter(line, 'elegant')
    first = None
    for _ in range(rng.choice([1, 2, 3])):
        yield
        target = ctx.path('.py')
        out = ctx.call(w.write_file, target)
        if not ctx.expect_ok(out, 'write', 'write_file'):
            return
        with open(target) as f:
            script = f.read()
        ctx.check(script == out.value, 'returned', 'the returned text is not the one in the file')
        ctx.check(first in (None, script), 'rewritten', 'second writing differs: %r, first %r' % (script, first))
        ctx.count('rewritten', int(first is not None))
        first = script
        verify(ctx, script, 'TOP', want, rigidity, 'written beamline', 1e-9 + (1e-9 if mass == M_E else 1e-14) / (gamma - 1))
        ctx.drop(target)
    if rng.random() < 0.5:
        target = ctx.path('.py')
        longer = StructuredBeamline('TOP')
        longer.add_element('d', 'drif', {'l': 1.5})
        out = ctx.call(lambda: WarpWriter(longer, 'elegant').write_file(target))
        if ctx.expect_ok(out, 'write', 'write_file'):
            verify(ctx, out.value, 'TOP', [{'kind': 'drift', 'name': 'D', 'l': 1.5}], 1, 'one drift')
        ctx.drop(target)


def run(ctx):
    for i in ctx.cases(400, 4000):
        case(ctx)
        if i % 3 != 2:
            ctx.interleave(writer)
