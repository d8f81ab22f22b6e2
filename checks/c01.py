"""C01: binary SDDS files are read exactly."""
from mon import sddsgen as g
from mon.sddscheck import hold, load, summary, content_key

MODULES = ['rsbeams.rsdata.SDDS']
TECHNIQUE = 'reference model: independent SDDS encoder against observed reads, file-write audit'
RULE = ('Binary SDDS files made by an independent encoder from random content (types, strings, fixed values, page and '
        'row counts, header layouts, bytes that look like line ends or comments) plus sweeps over row counts; each is '
        'read buffered and unbuffered, once and after earlier reads, and every value, type and shape is compared with the content. Non-trivial: at '
        'least one parameter or column is stored; distinct by types, row counts and first page.')
ASSUMPTIONS = ['little-endian host', 'header entries separated by comma and white space',
               'strings of at most max_string_length ASCII characters without NUL']
DEPTH = 2
REQUIRE = {'files_read': 100, 'long_string_files': 5, 'reread': 100, 'other_readers_read': 50, 'file_names_used_again': 50, 'results_kept': 500, 'values_compared': 5000}


def one(ctx, doc, note=''):
    limit = g.string_lengths(doc, ctx.rng)
    data, offsets = g.encode(doc, ctx.rng)
    path = ctx.write(data, '.sdds')
    ctx.count('long_string_files', int(limit.get('max_string_length', 0) > 100))
    ctx.case(content_key(doc), dict(summary(doc, data), **limit), nontrivial=bool(doc.params or doc.cols))
    for buffer in (True, False):
        reader = load(ctx, path, buffer, **limit)
        if reader is None:
            continue
        with ctx.oracle('binary-content'):
            diff = g.compare(doc, reader)
            ctx.check(diff is None, 'binary-content', lambda: 'buffer=%s%s: %s' % (buffer, note, diff))
        hold(ctx, reader)
        ctx.count('pages_compared', len(doc.pages))
        ctx.count('values_compared', sum(len(r) * len(doc.cols) + len(pv) for pv, r in doc.pages))
    ctx.drop(path)


def run(ctx):
    rng = ctx.rng
    for i in ctx.cases(500, 8000):
        one(ctx, g.document(rng, 'binary'))
    # Row counts around the values whose bytes are a line feed, a comment mark or a page/buffer size
    counts = [0, 1, 2, 9, 10, 11, 13, 32, 33, 34, 127, 128, 255, 256, 257, 266, 1023, 1024, 1025, 2559, 2560, 2561, 2570,
              2815, 4096, 8192]
    for i in ctx.cases(len(counts), len(counts) * 4):
        n = counts[i % len(counts)]
        one(ctx, g.document(rng, 'binary', pages=rng.choice([1, 2, 3]), rows=n, ncols=rng.choice([1, 2]),
                            strings=n < 300, uneven=False), ' rows=%d' % n)
    # Wide, long and many-page files
    for i in ctx.cases(9, 36):
        k = [0, 1, 2, 3, 4, 5, 2, 3, 3][i % 9]
        if k == 0:
            doc = g.document(rng, 'binary', pages=60, rows=3, ncols=2, nparams=2, uneven=bool(i % 2))
        elif k == 1:
            doc = g.document(rng, 'binary', pages=2, rows=5, ncols=rng.choice([40, 100]), nparams=rng.choice([30, 70, 150]))
        elif k == 2:
            doc = g.document(rng, 'binary', pages=1, rows=rng.choice([20000, 32768, 40000, 65536, 65537]), ncols=1, nparams=1, strings=False, uneven=False)
        elif k == 3:
            doc = g.document(rng, 'binary', pages=2, rows=rng.choice([400, 600, 1000, 1001, 1025, 2050]), ncols=3, nparams=3, uneven=True)
            doc.cols[0]['type'] = 'string'
            doc.pages = [(pv, [(g.text(rng, True),) + r[1:] for r in rows]) for pv, rows in doc.pages]
        elif k == 4:
            doc = g.document(rng, 'binary', pages=5, ncols=0, nparams=4)
        else:
            doc = g.document(rng, 'binary', pages=4, rows=6, ncols=3, nparams=0, uneven=True)
        one(ctx, doc)
