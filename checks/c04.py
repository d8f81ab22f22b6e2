"""C04: the header description of SDDS parameters and columns is reported as written."""
from mon import sddsgen as g
from mon.sddscheck import close, summary

MODULES = ['rsbeams.rsdata.SDDS']
TECHNIQUE = 'reference model of header metadata, field by field'
RULE = ('Headers with random parameters and columns (0 to 25), any subset and order of units, symbol, description, '
        'format_string and fixed_value, quoted or not, one or several lines, comments and &description/&associate '
        'entries in between; every accessor of every item is compared with the header text, fixed values also by type, also with several files open, of equal items or names. '
        'Non-trivial: at least one item with at least one optional field.')
ASSUMPTIONS = ['header entries separated by commas', 'no &end inside of values']
REQUIRE = {'fields_compared': 3000, 'fixed_values': 50, 'file_names_used_again': 50}


def examine(ctx, doc, r):
    for kind, items in (('parameter', doc.params), ('column', doc.cols)):
        for d in items:
            for field in ('symbol', 'units', 'description', 'format_string', 'type'):
                got = ctx.call(getattr(r, '%s_%s' % (kind, field)), d['name'])
                ctx.count('fields_compared')
                if ctx.expect_ok(got, 'header-access', '%s_%s(%r)' % (kind, field, d['name'])):
                    want = d.get(field, '')
                    ctx.check(isinstance(got.value, str) and got.value == want, 'header-field',
                              lambda: '%s_%s(%r) is %r, header has %r' % (kind, field, d['name'], got.value, want))
            if kind == 'parameter':
                got = ctx.call(r.parameter_fixed_value, d['name'])
                if ctx.expect_ok(got, 'header-access', 'parameter_fixed_value'):
                    want = d['fixed']
                    ctx.count('fixed_values', int(want is not None))
                    same = got.value is None if want is None else (got.value == want and (
                        isinstance(got.value, str) if d['type'] == 'string' else
                        isinstance(got.value, int) if d['type'] in ('long', 'short') else
                        isinstance(got.value, float)))
                    ctx.check(same, 'header-fixed-value', lambda: 'fixed value of %r (%s) is %r, header has %r'
                              % (d['name'], d['type'], got.value, want))


def run(ctx):
    from rsbeams.rsdata.SDDS import readSDDS
    rng = ctx.rng
    for i in ctx.cases(330, 7000):
        opened, used = [], []
        # one file, or several that are open together, possibly with the same items and under the same name
        for k in range(rng.choice([1, 1, 1, 2, 3])):
            if k and rng.random() < 0.4:
                # the items of the last file with their descriptions exchanged
                doc = opened[-1][0]
                doc = g.document(rng, doc.mode, pages=1, rows=1, ncols=len(doc.cols), nparams=len(doc.params))
                called = {new['name']: old['name'] for new, old in zip(doc.cols + doc.params, opened[-1][0].cols + opened[-1][0].params)}
                doc.pages = [({called[n]: v for n, v in pv.items()}, rows) for pv, rows in doc.pages]
                for d in doc.cols + doc.params:
                    d['name'] = called[d['name']]
                if len({d['name'] for d in doc.params + doc.cols}) < len(doc.params + doc.cols):
                    continue
            else:
                doc = g.document(rng, rng.choice(['binary', 'ascii']), pages=rng.choice([0, 1]), rows=1,
                                 ncols=ctx.size([0, 1, 2, 5, 12, 25], 130, 0.01), nparams=ctx.size([0, 1, 3, 8, 25], 150, 0.01))
            data, _ = g.encode(doc, rng)
            path = ctx.write(data, '.sdds')
            ctx.count('files')
            used.append(path)
            ctx.case(tuple(tuple(sorted((k, str(v)) for k, v in d.items())) for d in doc.params + doc.cols),
                     dict(summary(doc), header=data[:1500].decode('latin-1').split('&data')[0]),
                     nontrivial=any(len(d) > 3 for d in doc.params + doc.cols))
            for buffer in (True, False):
                out = ctx.call(readSDDS, path, buffer=buffer)
                if not ctx.expect_ok(out, 'header-open', 'readSDDS of a valid header'):
                    continue
                close(out.value)
                opened.append((doc, out.value))
            if rng.random() < 0.5:
                ctx.drop(path)
        rng.shuffle(opened)
        for doc, r in opened:
            examine(ctx, doc, r)
        ctx.drop(*used)
