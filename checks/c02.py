"""C02: ASCII SDDS files are read exactly."""
from mon import sddsgen as g
from mon.sddscheck import hold, load, summary, content_key

MODULES = ['rsbeams.rsdata.SDDS']
TECHNIQUE = 'reference model: independent SDDS text generator against observed reads'
RULE = ('ASCII SDDS files made by an independent encoder from random content, with and without row counts, with comment '
        'lines, blank lines, trailing comments, CRLF line ends, quoted strings, varying white space and number formats, one or several pages, empty '
        'pages; each is read buffered and unbuffered and every value, type and shape is compared with the content. '
        'Non-trivial: at least one parameter or column is stored.')
ASSUMPTIONS = ['one row per line (lines_per_row=1)', 'strings of at most max_string_length characters without line '
               'ends', 'ASCII string columns may be delivered as bytes or str']
REQUIRE = {'files_read': 100, 'long_string_files': 5, 'values_compared': 5000, 'no_row_count_files': 10, 'reread': 100, 'other_readers_read': 50, 'file_names_used_again': 50, 'results_kept': 500, 'crlf_files': 5}


def one(ctx, doc, note=''):
    limit = g.string_lengths(doc, ctx.rng)
    data, offsets = g.encode(doc, ctx.rng)
    if b'\r' not in data and ctx.rng.random() < 0.08:
        data = data.replace(b'\n', b'\r\n')
        note += ' (CRLF)'
        ctx.count('crlf_files')
    path = ctx.write(data, '.sdds')
    ctx.count('long_string_files', int(limit.get('max_string_length', 0) > 100))
    ctx.case(content_key(doc), dict(summary(doc, data), **limit), nontrivial=bool(doc.params or doc.cols))
    ctx.count('no_row_count_files', int(doc.no_row_counts))
    for buffer in (True, False):
        reader = load(ctx, path, buffer, mechanism='read-ascii', **limit)
        if reader is None:
            continue
        with ctx.oracle('ascii-content'):
            diff = g.compare(doc, reader)
            ctx.check(diff is None, 'ascii-content', lambda: 'buffer=%s%s: %s' % (buffer, note, diff))
        hold(ctx, reader)
        ctx.count('pages_compared', len(doc.pages))
        ctx.count('values_compared', sum(len(r) * len(doc.cols) + len(pv) for pv, r in doc.pages))
    ctx.drop(path)


def run(ctx):
    rng = ctx.rng
    for i in ctx.cases(350, 6000):
        nrc = rng.random() < 0.3
        doc = g.document(rng, 'ascii', no_row_counts=nrc, ncols=rng.choice([1, 2, 3, 5]) if nrc else None)
        if nrc and any(not r for _, r in doc.pages):
            # a page without rows and without row counts cannot be told from a blank line
            doc.pages = [(pv, r or [tuple(g.value(rng, c['type'], False) for c in doc.cols)]) for pv, r in doc.pages]
        one(ctx, doc)
    for i in ctx.cases(7, 28):
        k = i % 7
        if k == 0:
            doc = g.document(rng, 'ascii', pages=40, rows=3, ncols=2, nparams=2)
        elif k == 1:
            doc = g.document(rng, 'ascii', pages=2, rows=5, ncols=rng.choice([30, 100]), nparams=rng.choice([30, 70, 150]))
        elif k == 2:
            doc = g.document(rng, 'ascii', pages=1, rows=rng.choice([2500, 4096, 6000]), ncols=rng.choice([1, 2]), nparams=1, uneven=False)
        elif k == 3:
            doc = g.document(rng, 'ascii', pages=5, ncols=0, nparams=4)
        elif k == 6:
            doc = g.document(rng, 'ascii', pages=2, rows=3, ncols=rng.choice([500, 900]), nparams=3)
        elif k == 4:
            doc = g.document(rng, 'ascii', pages=4, rows=6, ncols=3, nparams=0)
        else:
            doc = g.document(rng, 'ascii', pages=3, rows=1, ncols=1, nparams=1, no_row_counts=True, uneven=False)
        one(ctx, doc)
