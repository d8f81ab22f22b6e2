"""C06: files written by writeSDDS hold exactly the data given."""
import math
import os

from mon import sddsgen as g
from mon.core import snapshot
from mon.sddscheck import load

MODULES = ['rsbeams.rsdata.SDDS']
TECHNIQUE = 'reference model: independent SDDS decoder over written files, write audit, argument snapshots, operation histories'
RULE = ('Random data (types short, long, double, string; NumPy arrays of several memory layouts and lists; fixed values; header '
        'fields) is added to one or several writers in interleaved order and saved repeatedly in both modes; each file is '
        'decoded by an independent strict decoder and read back by readSDDS (buffered and not), and compared with a copy '
        'of the data.  Non-trivial: at least one stored value; distinct by types, sizes, first values and save history.')
ASSUMPTIONS = ['little-endian host', 'values match the declared type, as documented',
               'strings without line ends; names without blanks']
DEPTH = 2
REQUIRE = {'files_written': 200, 'files_decoded': 200, 'refused_unequal': 20, 'values_compared': 3000, 'single_precision': 3, 'strings': 200}
TYPES = ('double', 'long', 'short', 'double', 'long', 'short', 'string')


def layout(ctx, typ, vals):
    """The same numbers as arrays of different memory layouts."""
    import numpy as np
    if typ == 'string':
        k = ctx.rng.randrange(4)
        if k == 3:
            import pandas as pd
            return pd.Series(vals, index=range(len(vals))[::-1], dtype=object), 'series'
        return [list(vals), np.array(vals, dtype=object), np.array(vals, dtype=str)][k], 'strings'
    if typ == 'double' and ctx.rng.random() < 0.1:
        # values of single precision
        vals[:] = [float(np.float32(v)) if abs(v) < 1e38 else v for v in vals]
        if all(abs(v) < 1e38 for v in vals):
            return np.array(vals, dtype='f4'), 'single precision'
    dt = {'double': 'f8', 'long': ctx.rng.choice(['i4', 'i8']), 'short': ctx.rng.choice(['i2', 'i8', 'i4'])}[typ]
    a = np.array(vals, dtype=dt)
    k = ctx.rng.randrange(9)
    if k == 0:
        return np.repeat(a, 3)[::3], 'strided'
    if k == 1:
        return a[::-1].copy()[::-1], 'reversed'
    if k == 2:
        b = np.zeros((len(a), 4), dtype=dt)
        b[:, 2] = a
        return b[:, 2], 'column of array'
    if k == 3:
        return list(a.tolist()), 'list'
    if k == 4:
        a.flags.writeable = False
        return a, 'read only'
    if k == 6:
        import pandas as pd
        index = list(range(len(a)))
        ctx.rng.shuffle(index)
        return pd.Series(a, index=index), 'series'
    if k == 7:
        return tuple(a.tolist()), 'tuple'
    if k == 8:
        return a.astype(a.dtype.newbyteorder('>')), 'big endian'
    return a, 'contiguous'


def scalar(ctx, typ, v):
    import numpy as np
    k = ctx.rng.randrange(3)
    if typ == 'string':
        return np.str_(v) if k == 0 else v
    if k == 0:
        return v
    t = {'double': np.float64, 'long': np.int32 if k == 1 else np.int64, 'short': np.int16 if k == 1 else np.int64}[typ]
    return np.array([v]) if ctx.rng.random() < 0.05 else np.array(v) if ctx.rng.random() < 0.05 else t(v)


def string(ctx):
    rng = ctx.rng
    v = g.like(rng, True) if rng.random() < 0.7 else rng.choice(g.TEXT)
    # as far as the lines of the file go; NUL cannot be told from padding
    return v.replace('\n', ' ').replace('\r', ' ').replace('\0', '')[:100]


class Model:
    def __init__(self, writer):
        self.writer, self.doc, self.given = writer, g.Doc(), []
        self.rows = []
        self.pvals = {}
        self.used = set()

    def page(self):
        n = len(self.rows[0]) if self.rows else 0
        return self.pvals, [tuple(col[i] for col in self.rows) for i in range(n)]


def fields(d, prefix):
    names = {'units': 'Units', 'symbol': 'Symbol', 'format_string': 'FormatStr', 'description': 'Description'}
    return {prefix + v: d[k] for k, v in names.items() if k in d}


def add_parameter(ctx, m):
    rng = ctx.rng
    d = g.describe(rng, g.names(rng, 1, m.used)[0], rng.choice(TYPES))
    kw = fields(d, 'par')
    v = g.number(rng, d['type']) if d['type'] != 'string' else string(ctx)
    if d['type'] == 'double' and rng.random() < 0.1 and abs(v) < 1e38:
        import numpy as np
        v = float(np.float32(v))
        single = np.float32(v)
    else:
        single = None
    if rng.random() < 0.25:
        if rng.random() < 0.3 or d['type'] == 'string':
            d['type'] = 'string'
            v = ''.join(rng.choice('abc XYZ_1."\\') for _ in range(rng.randint(1, 12))).strip()
        while isinstance(v, float) and not math.isfinite(v):
            v = g.number(rng, 'double')
        v = rng.choice([0, 0.0]) if rng.random() < 0.15 and d['type'] != 'string' else v
        if d['type'] in ('long', 'short'):
            v = int(v)
        d['fixed'] = v
        out = ctx.call(m.writer.create_parameter, d['name'], None, d['type'], parFixedVal=v, **kw)
    else:
        m.pvals[d['name']] = v
        data = scalar(ctx, d['type'], v) if single is None else single
        ctx.count('single_precision', int(single is not None))
        ctx.count('strings', int(d['type'] == 'string'))
        m.given.append((data, snapshot(data)))
        out = ctx.call(m.writer.create_parameter, d['name'], data, d['type'], **kw)
    m.doc.params.append(d)
    return ctx.expect_ok(out, 'create-parameter', 'create_parameter')


def add_column(ctx, m, n, types=TYPES):
    rng = ctx.rng
    d = g.describe(rng, g.names(rng, 1, m.used)[0], rng.choice(types))
    vals = [g.number(rng, d['type']) if d['type'] != 'string' else string(ctx) for _ in range(n)]
    ctx.count('strings', n if d['type'] == 'string' else 0)
    data, how = layout(ctx, d['type'], vals)
    m.given.append((data, snapshot(data)))
    ctx.count('layout_' + how.replace(' ', '_'))
    kw = fields(d, 'col')
    if rng.random() < 0.15:
        kw['colFieldLen'] = d['field_length'] = rng.choice([0, 30, -40])
    out = ctx.call(m.writer.create_column, d['name'], data, d['type'], **kw)
    m.doc.cols.append(d)
    m.rows.append(vals)
    return ctx.expect_ok(out, 'create-column', 'create_column')


def compare_decoded(m, decoded, mode):
    """Compares the independent decoding of a file with the model; returns the first difference."""
    params, cols, got_mode, (pvals, rows) = decoded
    if got_mode != mode:
        return 'mode is %s' % got_mode
    for kind, want, got in (('parameter', m.doc.params, params), ('column', m.doc.cols, cols)):
        if [d['name'] for d in want] != [d['name'] for d in got]:
            return '%ss in the header: %s, given %s' % (kind, [d['name'] for d in got], [d['name'] for d in want])
        for w, h in zip(want, got):
            for k in ('type', 'units', 'symbol', 'description', 'format_string'):
                if (w.get(k) or '') != h.get(k, ''):
                    return '%s %s of %r is %r, given %r' % (kind, k, w['name'], h.get(k), w.get(k))
            if int(h.get('field_length', 0)) != w.get('field_length', 0):
                return 'field length of %r is %r, given %r' % (w['name'], h.get('field_length'), w.get('field_length'))
            if (w['fixed'] is None) != ('fixed_value' not in h):
                return 'fixed value of %r is %r, given %r' % (w['name'], h.get('fixed_value'), w['fixed'])
            if w['fixed'] is not None:
                conv = {'string': str, 'double': float}.get(w['type'], int)
                if conv(h['fixed_value']) != w['fixed']:
                    return 'fixed value of %r is %r, given %r' % (w['name'], h['fixed_value'], w['fixed'])
    wp, wr = m.page()
    for d in m.doc.params:
        if d['fixed'] is None and not g.same(d['type'], wp[d['name']], pvals[d['name']]):
            return 'parameter %r is stored as %r, given %r' % (d['name'], pvals[d['name']], wp[d['name']])
    if len(rows) != len(wr):
        return '%d rows are stored, given %d' % (len(rows), len(wr))
    for i, (r, w) in enumerate(zip(rows, wr)):
        for d, a, b in zip(m.doc.cols, r, w):
            if not g.same(d['type'], b, a):
                return 'column %r row %d is stored as %r, given %r' % (d['name'], i, a, b)
    return None


def save(ctx, m, path, mode, explicit=True):
    before = set(os.listdir(ctx.scratch))
    out = ctx.call(m.writer.save_sdds, path, **({'dataMode': mode} if explicit else {}))
    if not ctx.expect_ok(out, 'save', 'save_sdds(%s)' % mode):
        return None
    ctx.count('files_written')
    ctx.count('files_written_' + mode)
    new = set(os.listdir(ctx.scratch)) - before - {os.path.basename(path)}
    ctx.check(set(out.written) <= {path} and not new and not out.removed, 'save-other-files',
              'save_sdds opens other files for writing: %s %s' % (sorted(set(out.written) - {path}), sorted(new)))
    ctx.check(all(snapshot(a) == b for a, b in m.given), 'save-mutates', 'save_sdds changes the data it was given')
    with open(path, 'rb') as f:
        return f.read()


def verify(ctx, m, path, data, mode):
    with ctx.oracle('decode'):
        diff = compare_decoded(m, g.decode(data), mode)
        ctx.count('files_decoded')
        ctx.count('values_compared', sum(map(len, m.rows)) + len(m.pvals))
        ctx.check(diff is None, 'written-content', lambda: '%s file: %s' % (mode, diff))
    m.doc.mode = mode
    m.doc.pages = [m.page()]
    for buffer in (True, False):
        reader = load(ctx, path, buffer, mechanism='read-back')
        if reader is not None:
            with ctx.oracle('read-back'):
                diff = g.compare(m.doc, reader)
                ctx.check(diff is None, 'read-back', lambda: '%s, buffer=%s: %s' % (mode, buffer, diff))


def history(ctx, i):
    from rsbeams.rsdata.SDDS import writeSDDS
    rng = ctx.rng
    ms = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        out = ctx.call(writeSDDS)
        if not ctx.expect_ok(out, 'create', 'writeSDDS()'):
            return
        m = Model(out.value)
        m.n = rng.choice([0, 1, 2, 3, 10, 33, 100])
        if rng.random() < 0.08:
            # many columns and parameters
            m.n = min(m.n, 3)
            ctx.count('wide')
            for _ in range(rng.choice([8, 17, 40])):
                if not (add_column(ctx, m, m.n) and add_parameter(ctx, m)):
                    return
        ms.append(m)
    last = {}
    for step in range(rng.choice([4, 6, 10])):
        m = rng.choice(ms)
        k = rng.random()
        if k < 0.35:
            ok = add_parameter(ctx, m)
        elif k < 0.65:
            ok = add_column(ctx, m, m.n)
        else:
            mode = rng.choice(['ascii', 'binary'])
            path = os.path.join(ctx.scratch, 'w%d.sdds' % rng.randrange(3))
            data = save(ctx, m, path, mode, explicit=mode == 'binary' or rng.random() < 0.7)
            if data is None:
                return
            key = (id(m), mode, len(m.doc.params), len(m.doc.cols))
            if key in last:
                ctx.count('repeated_saves')
                ctx.check(last[key] == data, 'repeat-differs', 'saving the same data again gives a different file')
            last[key] = data
            ctx.case((mode, step, tuple(d['type'] for d in m.doc.params + m.doc.cols), repr(m.page())[:200]),
                     {'mode': mode, 'writers': len(ms), 'parameters': m.doc.params, 'columns': m.doc.cols, 'rows': m.n,
                      'file': data[:500].decode('latin-1')}, nontrivial=bool(m.pvals or m.doc.cols))
            verify(ctx, m, path, data, mode)
            ok = True
        if not ok:
            return


def refuse(ctx):
    """Columns of different length never reach the file."""
    from rsbeams.rsdata.SDDS import writeSDDS
    rng = ctx.rng
    old = ctx.write(b'previous content')
    out = ctx.call(writeSDDS)
    if not ctx.expect_ok(out, 'create', 'writeSDDS()'):
        return
    m = Model(out.value)
    n = rng.choice([0, 1, 2, 5])
    lengths = [n] * rng.choice([1, 2, 4])
    lengths.insert(rng.randrange(len(lengths) + 1), n + rng.choice([1, 2, 10]))
    for k in lengths:
        if not add_column(ctx, m, k):
            return
    mode = rng.choice(['ascii', 'binary'])
    ctx.case(('unequal', mode, tuple(lengths)), {'mode': mode, 'lengths of columns': lengths})
    out = ctx.call(m.writer.save_sdds, old, dataMode=mode)
    ctx.count('refused_unequal')
    ctx.check(isinstance(out.error, Exception), 'unequal-accepted', 'columns of lengths %s are saved' % lengths)
    ctx.check(open(old, 'rb').read() == b'previous content' and not out.written, 'unequal-touches-file',
              'the file is opened before the columns are checked')
    ctx.drop(old)


def run(ctx):
    for i in ctx.cases(220, 3000):
        history(ctx, i)
    for i in ctx.cases(40, 400):
        refuse(ctx)
    # bulk data
    from rsbeams.rsdata.SDDS import writeSDDS
    for i in ctx.cases(8, 32):
        m = Model(writeSDDS())
        for _ in range(3):
            add_parameter(ctx, m)
        # files with few rows and with more rows than 16 bits can count
        rows, columns = [(5000, 6), (5000, 6), (70000, 2), (33000, 1)][i % 4]
        for _ in range(columns):
            # the reader takes quadratic time for rows with strings
            add_column(ctx, m, rows, TYPES if rows == 5000 else [t for t in TYPES if t != 'string'])
        mode = ['binary', 'ascii'][i % 2] if rows == 5000 else 'binary' if i % 4 == 2 or i < 4 else 'ascii'
        path = ctx.path()
        data = save(ctx, m, path, mode)
        ctx.case(('bulk', mode, i), {'mode': mode, 'rows': rows, 'columns': columns})
        if data is not None:
            verify(ctx, m, path, data, mode)
        ctx.drop(path)
