"""C05: incomplete SDDS files are never read as if they were complete, and never hang."""
import re

from mon import sddsgen as g
from mon.sddscheck import load, summary, content_key

LEVEL = 'fault_enumeration'
MODULES = ['rsbeams.rsdata.SDDS']
TECHNIQUE = 'fault injection: cut at every byte, under a logical-step hang monitor'
RULE = ('Small files with known content are cut at every byte (header and data; a random sample of positions for the '
        'larger ones), read buffered and unbuffered under a logical-step budget, and must raise or deliver exactly the '
        'whole pages that are left (ASCII: the very last value may be shortened).  Also: damaged headers and rows. '
        'Non-trivial: the cut is inside of the header or inside of a page.')
ASSUMPTIONS = ['crash model: the file is a prefix of a valid file']
REQUIRE = {'cut_in_header': 200, 'cut_in_page': 200, 'cut_at_page_end': 10, 'raised': 300, 'delivered': 20}
STEPS = 1_500_000


def tail_differs_only(doc, reader, pages):
    """ASCII: all but the last value (of the last row, or the last parameter) must be as in the file."""
    import numpy as np
    k = len(pages) - 1
    short = g.Doc()
    short.params, short.cols, short.mode, short.no_row_counts = doc.params, doc.cols, doc.mode, doc.no_row_counts
    last = pages[-1]
    pv, rows = doc.pages[last]
    stored = [p['name'] for p in doc.params if p['fixed'] is None]
    pv = dict(pv)
    rows = list(rows)
    if doc.cols:
        got = [np.asarray(reader.columns[k][c['name']]).reshape(-1) for c in doc.cols]
        n = len(got[0])
        if n > len(rows) or (n != len(rows) and not doc.no_row_counts):
            return 'last page has %d rows, file has %d' % (n, len(rows))
        rows = rows[:n]
    if not doc.cols or (n == 0 and doc.no_row_counts):
        # the cut is in or behind the parameters
        if stored:
            v = np.asarray(reader.parameters[k][stored[-1]]).reshape(-1)[0]
            pv[stored[-1]] = v.item()
    elif rows:
        v = got[-1][-1]
        rows[-1] = rows[-1][:-1] + (v.item(),)
    short.pages = [doc.pages[p] for p in pages[:-1]] + [(pv, rows)]
    return g.compare(short, reader)


def cut(ctx, doc, data, offsets, pos, buffer):
    path = ctx.write(data[:pos], '.sdds')
    where = 'header' if pos < offsets[0] else 'page_end' if pos in offsets else 'page'
    ctx.case((content_key(doc), pos, buffer), dict(summary(doc, data), cut_at=pos, of=len(data), buffer=buffer),
             nontrivial=where != 'page_end')
    ctx.count({'header': 'cut_in_header', 'page_end': 'cut_at_page_end', 'page': 'cut_in_page'}[where])
    out = load(ctx, path, buffer, mechanism='cut', report=False, steps=STEPS)
    ctx.drop(path)
    what = 'file cut at byte %d of %d (in the %s), buffer=%s' % (pos, len(data), where, buffer)
    if out is None:
        return
    if hasattr(out, 'hang'):
        if out.hang:
            ctx.fail('cut-hang', what + ': ' + out.why())
            return
        ctx.count('raised')
        if where == 'page_end':
            ctx.fail('cut-page-end-raises', what + ': ' + out.why())
        return
    ctx.count('delivered')
    if where == 'header':
        if not (re.search(rb'\n\s*&data', data[:pos]) and data[:pos].rstrip().endswith(b'&end')):
            ctx.fail('cut-header-accepted', what + ': no error')
        return
    whole = [i for i in range(len(doc.pages)) if offsets[i + 1] <= pos]
    with ctx.oracle('cut'):
        diff = g.compare(doc, out, whole)
        if diff is None:
            # what is left must not have held any data
            rest = data[max(o for o in offsets if o <= pos):pos]
            if doc.mode == 'binary':
                ctx.check(not rest, 'cut-data-dropped', what + ': %d bytes of an incomplete page are ignored' % len(rest))
            else:
                content = [ln for ln in rest.split(b'\n') if ln.strip() and not ln.lstrip().startswith(b'!')]
                ctx.check(not content, 'cut-data-dropped', what + ': incomplete page %r is ignored' % content[:3])
        elif doc.mode == 'ascii' and len(whole) < len(doc.pages):
            diff = tail_differs_only(doc, out, whole + [len(whole)])
            ctx.check(diff is None, 'cut-accepted', lambda: what + ': no error, but ' + diff)
        else:
            ctx.fail('cut-accepted', what + ': no error, but ' + diff)


def run(ctx):
    rng = ctx.rng
    for i in ctx.cases(16, 220, seconds=None if ctx.thorough else 60):
        mode = 'binary' if i % 2 == 0 else 'ascii'
        nrc = mode == 'ascii' and i % 4 == 3
        doc = g.document(rng, mode, pages=rng.choice([1, 2, 3]), rows=rng.choice([1, 2, 4]),
                         ncols=0 if i % 8 == 6 else rng.choice([1, 2, 3]), nparams=rng.choice([0, 1, 2]) or int(i % 8 == 6),
                         uneven=rng.random() < 0.4, no_row_counts=nrc)
        if i % 8 == 6:
            for p in doc.params:
                p['fixed'] = None
            doc.pages = [({p['name']: g.value(rng, p['type'], True) for p in doc.params}, []) for _ in doc.pages]
        if nrc:
            doc.pages = [(pv, r or [tuple(g.value(rng, c['type'], False) for c in doc.cols)]) for pv, r in doc.pages]
        data, offsets = g.encode(doc, rng)
        # header: sampled, data: every byte
        heads = range(0, offsets[0]) if ctx.thorough else rng.sample(range(offsets[0]), min(offsets[0], 60))
        tail = list(range(offsets[0], len(data) + 1))
        if len(tail) > 250 and not ctx.thorough:
            tail = sorted(set(rng.sample(tail, 200)) | set(offsets))
        for pos in list(heads) + tail:
            for buffer in ((True, False) if ctx.thorough or pos in offsets else (rng.random() < 0.5,)):
                cut(ctx, doc, data, offsets, pos, buffer)
                if len(ctx.violations) >= 5:
                    return
    damaged(ctx)


UNKNOWN = [b'quadruple', b'doubles', b'longdouble', b'long64', b'ulong64', b'ushort', b'ulong', b'shorts', b'float64', b'float32',
           b'int', b'real', b'Double', b'strings', b'characters', b'doub', b'lo', b's', b'd']


class Miscounted(list):
    """Rows that are counted wrongly."""

    told = 0


def negative(ctx, i):
    """A page cannot have a negative number of rows."""
    rng = ctx.rng
    doc = g.document(rng, 'ascii' if i % 2 else 'binary', strings=i % 4 > 1, uneven=False)
    if not doc.cols or doc.no_row_counts or not doc.pages:
        return
    k = rng.randrange(len(doc.pages))
    pv, rows = doc.pages[k]
    rows = Miscounted(rows if rng.random() < 0.3 else [])
    rows.told = rng.choice([-1, -1, -2, -7, -2 ** 31])
    doc.pages[k] = (pv, rows)
    data, offsets = g.encode(doc, rng)
    path = ctx.write(data, '.sdds')
    buffer = rng.random() < 0.5
    ctx.case(('negative', i % 4, data), {'mode': doc.mode, 'count': rows.told, 'page': k, 'buffer': buffer})
    ctx.count('negative_counts')
    out = load(ctx, path, buffer, mechanism='damaged', report=False)
    ctx.drop(path)
    if out is not None and not hasattr(out, 'hang'):
        ctx.fail('damaged-accepted', 'a page that has a row count of %d is read without an error' % rows.told)
    elif out is not None and out.hang:
        ctx.fail('damaged-hang', 'a page that has a row count of %d: %s' % (rows.told, out.why()))


def damaged(ctx):
    """Files that are not SDDS files, or whose data contradicts its own header, are refused."""
    rng = ctx.rng
    for i in ctx.cases(60, 900):
        negative(ctx, i)
    for i in ctx.cases(90, 900):
        doc = g.document(rng, 'ascii' if i % 2 else 'binary', pages=1, rows=3, ncols=2, nparams=1, strings=False, uneven=False)
        for d in doc.params:
            d['fixed'] = None
        doc.pages = [({p['name']: g.number(rng, p['type'], False) for p in doc.params},
                      [tuple(g.number(rng, c['type'], False) for c in doc.cols) for _ in range(3)])]
        data, offsets = g.encode(doc, rng)
        kind = ['magic', 'type', 'nodata', 'cells', 'text', 'count', 'entry', 'partype', 'tag'][i // 2 % 9]
        if kind == 'magic':
            data = data.replace(b'SDDS1', rng.choice([b'SDDS', b'HDF5', b'', b'\x00\x01']), 1)
        elif kind == 'type':
            data, hit = re.subn(rb'(&column\s+name=[^,]*,\s+type=)\w+', rb'\1' + rng.choice(UNKNOWN), data, count=1)
            if not hit:
                continue
        elif kind == 'partype':
            data, hit = re.subn(rb'(&parameter\s+name=[^,]*,\s+type=)\w+', rb'\1' + rng.choice(UNKNOWN), data, count=1)
            if not hit:
                continue
        elif kind == 'entry':
            # an entry that is not part of the format, anywhere in front of &data
            at = rng.choice([m.start() + 1 for m in re.finditer(rb'\n(?=[ \t]*&(parameter|column|data)\s)', data[:offsets[0]])])
            data = data[:at] + rng.choice([b'&colunm name=q, type=double, &end\n', b'&foo name=q, &end\n',
                                           b'column name=q, type=double, &end\n', b'1.5 2.5\n']) + data[at:]
        elif kind == 'tag':
            data, hit = re.subn(rb'\n\s*&column\s', rb'\n&clumn ', data, count=1)
            if not hit:
                continue
        elif kind == 'nodata':
            data = data[:re.search(rb'\n\s*&data', data).start() + 1]
        elif kind == 'cells' and i % 2:
            data = data.rstrip()
            data = data[:data.rindex(b'\n') + 1] + b'1\n'
        elif kind == 'text' and i % 2:
            data = data.rstrip()
            data = data[:data.rindex(b'\n') + 1] + b'one two\n'
        elif kind == 'count' and not i % 2:
            data = data[:offsets[0]] + b'\x07' + data[offsets[0] + 1:]
        else:
            continue
        path = ctx.write(data, '.sdds')
        buffer = rng.random() < 0.5
        ctx.case(('damaged', kind, i % 2, content_key(doc)), dict(summary(doc, data), damage=kind))
        ctx.count('damaged_' + kind)
        out = load(ctx, path, buffer, mechanism='damaged', report=False)
        ctx.drop(path)
        if out is not None and not hasattr(out, 'hang'):
            ctx.fail('damaged-accepted', 'a file damaged by %s is read without an error' % kind)
        elif out is not None and out.hang:
            ctx.fail('damaged-hang', 'a file damaged by %s: %s' % (kind, out.why()))
