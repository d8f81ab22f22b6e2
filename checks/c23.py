"""C23: Sirepo lattices."""
import copy
import json
import os

from mon.core import REPO
from mon.lattices import Line, compare, spelling

MODULES = ['rsbeams.rslattice.templates.lattice_importer', 'rsbeams.rslattice.Beamline']
TECHNIQUE = 'reference monitor: structure and flat sequence of each import are compared with an independent recursive expansion'
RULE = ('Random Sirepo models: elements with text and number parameters, variables with cached values, lines nested to any depth with repeated and '
        'reversed members; imported by name from a dictionary and from a file, several times, and the lattice of the test resources with the '
        'lengths that Sirepo stored.  Non-trivial: the line has at least two elements; distinct by structure.')
REQUIRE = {'imports': 200, 'reversed_lines': 150, 'repeated_lines': 80, 'cached_values': 150, 'files': 60, 'depth_3': 40, 'unknown_line': 20, 'cases_at_once': 40, 'data_changed': 40, 'imported_changed': 40, 'file_names_used_again': 20, 'odd_parameters': 100}


def similar(ctx, lines):
    """A new name that looks like that of another line."""
    old = ctx.rng.choice(lines)['name']
    names = [n for n in (old.swapcase(), old.upper(), old + '1', old[:-1], ' ' + old, old + ' ', 'x' + old) if n not in [b['name'] for b in lines]]
    return ctx.rng.choice(names)


def model(ctx):
    rng = ctx.rng
    ne, nb = ctx.size([1, 3, 8, 20], 300, 0.01), rng.choice([1, 2, 4, 7])
    extra = rng.choice([10, 30, 80]) if rng.random() < 0.04 else 0  # many lines
    ids = rng.sample(range(1, 1400), ne + nb + extra)
    cache = {'k1f': 0.25, 'a b +': -3, 'ldr': 1.5, '2 pi *': 6.283185307179586, 'zero': 0, '1': 1, 'neg': '-2.5', 'lneg': -1.25, 'tiny': 1e-300, 'int': 7}
    elements, lines = [], []
    for i in ids[:ne]:
        e = {'_id': i, 'name': 'E%d' % i if rng.random() < 0.8 else rng.choice(['quad 1', 'd:x', 'E', 'B']), 'type': rng.choice(['DRIF', 'QUAD', 'CSBEND', 'Watch'])}
        if e['name'] in [x['name'] for x in elements]:
            e['name'] += str(i)
        if rng.random() < 0.9:
            e[spelling(ctx, 'l')] = rng.choice(['0.0', '2.62', '1e-2', 1.5, 0, 3, 'ldr', 'ldr', 'zero', '1', 'neg', 'a b +', '2 pi *', 'lneg', repr(rng.uniform(0, 9))])
        for k in rng.sample(['k1', 'angle', 'filename', 'n_kicks', 'Tilt', 'group'], rng.choice([0, 1, 3, 6])):
            e[k] = rng.choice(['k1f', 'a b +', '2 pi *', 'zero', 'neg', 'lneg', 'tiny', 'int', 'k1f ', 'xk1f', '', 0, 1.0, -7, True, None, 'f.sdds', '1', repr(rng.uniform(-1, 1))])
        if rng.random() < 0.4:
            # anything other than the name and the type is a parameter
            ctx.count('odd_parameters')
            for k in rng.sample(['__p', '_super', '_x', '__', 'units', 'Name', 'TYPE', 'id', 'names', 'type_', 'name2', 'isDisabled', 'a.b', 'a b', '', 'items', 'parameters', 'k-1', '%'], 3):
                e[k] = rng.choice(['k1f', '', 0, 2.5, 'text', 'neg', None, False])
        items = list(e.items())
        rng.shuffle(items)
        elements.append(dict(items))
    lineids = ids[ne:ne + nb]
    for j, i in enumerate(lineids):
        items = []
        for _ in range(ctx.size([0, 1, 2, 3, 6], 150, 0.02) if j == 0 else rng.choice([0, 1, 2, 3, 6])):
            if j and rng.random() < 0.5:
                items.append(rng.choice([1, -1]) * rng.choice(lineids[:j]))
            else:
                items.append(rng.choice(elements)['_id'])
        if items and rng.random() < 0.3:
            items.append(rng.choice(items))
        lines.append({'id': i, 'name': rng.choice(['L%d' % i, 'Line %d' % i, 'b%d' % i]) if j == 0 or rng.random() < 0.8 else similar(ctx, lines), 'items': items})
    ctx.count('many_lines', int(extra > 0))
    for i in ids[ne + nb:]:
        lines.append({'id': i, 'name': 'X%d' % i, 'items': [rng.choice([rng.choice(elements)['_id'], rng.choice([1, -1]) * lineids[0]]) for _ in range(rng.choice([0, 1, 3]))]})
    order = lines[:]
    rng.shuffle(order)
    rng.shuffle(elements)
    data = {'models': {'beamlines': order, 'elements': elements, 'rpnCache': cache, 'rpnVariables': [], 'simulation': {'name': 'x'}},
            'simulationType': 'elegant'}
    return data, lines


def expand(ctx, data, name, depth=0):
    lines = {b['id']: b for b in data['models']['beamlines']}
    elements = {e['_id']: e for e in data['models']['elements']}
    cache = data['models']['rpnCache']
    top = next(b for b in data['models']['beamlines'] if b['name'] == name)

    def fill(line, items, level):
        for it in items:
            if abs(it) in lines:
                sub = lines[abs(it)]
                n = sub['name'] if it > 0 else '-' + sub['name']
                ctx.count('reversed_lines', int(it < 0))
                ctx.count('repeated_lines', int(n in line.lines))
                ctx.count('depth_3', int(level == 2))
                new = n not in line.lines
                to = line.line(n)
                if new:
                    inner = list(sub['items'])
                    if it < 0:
                        inner = [(-q if abs(q) in lines else q) for q in reversed(inner)]
                    fill(to, inner, level + 1)
            else:
                e = elements[it]
                p = {}
                for k, v in e.items():
                    if k not in ('name', 'type'):
                        p[k] = v
                        for expr, val in cache.items():
                            if type(v) is str and v == expr or (type(v) is not str and v == expr):
                                p[k] = val
                                ctx.count('cached_values')
                line.add(e['name'], e['type'], p)
        return line
    return fill(Line(top['name']), top['items'], 0)


def flat_names(data, name):
    """Flat sequence of element ids by direct recursion with reversal of the whole expansion."""
    lines = {b['id']: b for b in data['models']['beamlines']}
    elements = {e['_id']: e['name'] for e in data['models']['elements']}

    def ex(i):
        out = []
        for it in lines[i]['items']:
            if abs(it) in lines:
                sub = ex(abs(it))
                out += sub if it > 0 else sub[::-1]
            else:
                out.append(elements[it])
        return out
    return ex(next(b['id'] for b in data['models']['beamlines'] if b['name'] == name))


def observe(ctx, got, want, flat, what):
    with ctx.oracle('import'):
        names = [e.name for e in got.get_beamline_elements()]
        if not ctx.check(names == flat, 'sequence', '%s gives elements %s, expected %s' % (what, names[:40], flat[:40])):
            return
        if not compare(ctx, 'import', got, want, what):
            return
        try:
            lengths = [e.length() for e in want.flat()]
        except ValueError:
            return
        size = sum(map(abs, lengths))
        ctx.check(abs(got.length - sum(lengths)) <= 1e-12 * size, 'length', '%s has length %r, expected %r' % (what, got.length, sum(lengths)))
        s, seen = 0.0, {}
        for a, l in zip(got.get_beamline_elements(), lengths):
            ctx.check(abs(a.edge - seen.setdefault(id(a), s)) <= 1e-12 * size, 'edge', '%s: edge of %s is %r, expected %r' % (what, a.name, a.edge, s))
            s += l


def case(ctx):
    from rsbeams.rslattice.templates.lattice_importer import parse_json
    rng = ctx.rng
    data, lines = model(ctx)
    keep = copy.deepcopy(data)
    path = ctx.write(json.dumps(data), '.json') if rng.random() < 0.5 else None
    for _ in range(rng.choice([1, 2, 3, 4])):
        name = rng.choice([lines[-1]['name'], rng.choice(lines)['name']])
        flat = flat_names(keep, name)
        if len(flat) > 3000:
            continue
        want = expand(ctx, keep, name)
        source = path if path else data
        out = ctx.call(parse_json, source, name, frozen=(data,))
        what = 'import of %r from %s' % (name, json.dumps({b['name']: b['items'] for b in data['models']['beamlines']}))
        ctx.case((repr(data['models']['beamlines']), repr(want.shape()), len(data['models']['elements'])),
                 {'lines': {b['name']: b['items'] for b in data['models']['beamlines']}, 'line': name}, nontrivial=len(flat) > 1)
        if not ctx.expect_ok(out, 'import', what):
            return
        ctx.count('imports')
        ctx.count('files', int(path is not None))
        ctx.check(not out.written, 'import-writes', 'import opens files for writing: %s' % out.written)
        observe(ctx, out.value, want, flat, what)
        if ctx.violations:
            return
        k = rng.random()
        elements = [e for e in out.value.get_beamline_elements()]
        if k < 0.25 and elements:
            # the beamline is changed; the next import is not concerned
            ctx.count('imported_changed')
            e = rng.choice(elements)
            e.parameters[rng.choice(list(e.parameters) or ['k1'])] = 123.5
            e.parameters['extra'] = 1
            ctx.check(data == keep, 'import-shares', 'a change of the imported beamline changes the data it came from')
            if rng.random() < 0.5:
                out.value.add_element('new', 'DRIF', {'l': 7.0})
        elif k < 0.5:
            # the data is changed
            ctx.count('data_changed')
            for e in rng.sample(data['models']['elements'], min(2, len(data['models']['elements']))):
                e['k1'] = rng.choice([0.5, '0.75', 'k1f', 'neg', repr(rng.uniform(-1, 1))])
            if rng.random() < 0.5:
                rng.choice(data['models']['beamlines'])['items'].append(data['models']['elements'][0]['_id'])
            keep = copy.deepcopy(data)
            if path:
                with open(path, 'w') as f:
                    f.write(json.dumps(data))
        else:
            ctx.again('import-kept', 'a beamline imported before', lambda bl=out.value: (
                [(e.name, e.type, dict(e.parameters)) for e in bl.get_beamline_elements()]))
        yield
    if rng.random() < 0.3:
        ctx.count('unknown_line')
        out = ctx.call(parse_json, path or data, 'no such line')
        ctx.check(isinstance(out.error, Exception), 'unknown-line', 'a line that does not exist is imported')
    if path:
        ctx.drop(path)


def resource(ctx):
    """A real lattice, with the lengths that Sirepo computed."""
    from rsbeams.rslattice.templates.lattice_importer import parse_json
    path = os.path.join(REPO, 'tests', 'test_resources', 'sirepo-data_nslsii.json')
    if not os.path.exists(path):
        return
    data = json.load(open(path))
    for b in data['models']['beamlines']:
        if b['name'] == 'RING' and not ctx.thorough:
            continue
        out = ctx.call(parse_json, path, b['name'])
        ctx.case(('resource', b['name']), {'file': path, 'line': b['name']})
        if ctx.expect_ok(out, 'import', 'import of %s' % b['name']):
            ctx.count('resource_lines')
            want = expand(ctx, data, b['name'])
            with ctx.oracle('import'):
                compare(ctx, 'import', out.value, want, 'import of %s' % b['name'])
                ctx.check([e.name for e in out.value.get_beamline_elements()] == flat_names(data, b['name']), 'sequence', 'sequence of %s' % b['name'])
                ctx.check(abs(out.value.length - b['length']) < 1e-9 * max(1, b['length']), 'length', 'length of %s is %r, Sirepo says %r'
                          % (b['name'], out.value.length, b['length']))


def schema(ctx):
    """The description of the elements of a code."""
    from rsbeams.rslattice.templates.lattice_importer import get_schema
    path = os.path.join(REPO, 'rsbeams', 'package_data', 'elegant-schema.json')
    if not os.path.exists(path):
        return
    want = json.load(open(path))
    ctx.case('schema', {'code': 'elegant'})
    out = ctx.call(get_schema, 'elegant')
    if ctx.expect_ok(out, 'schema', 'schema of elegant'):
        ctx.check(json.loads(json.dumps(out.value)) == want, 'schema', 'schema of elegant is not the one of %s' % path)
    out = ctx.call(get_schema, 'no such code')
    if ctx.expect_ok(out, 'schema', 'schema of a code that is not known'):
        ctx.check(not out.value, 'schema', 'schema of a code that is not known: %.80r' % (out.value,))


def run(ctx):
    resource(ctx)
    schema(ctx)
    for i in ctx.cases(180, 3000):
        ctx.interleave(case)
