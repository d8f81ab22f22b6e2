"""C03: reading selected pages gives exactly those pages of the file."""
import itertools
from mon import sddsgen as g
from mon.sddscheck import hold, load, summary, content_key

MODULES = ['rsbeams.rsdata.SDDS']
TECHNIQUE = 'metamorphic and reference-model monitor over page selections'
RULE = ('Multi-page binary and ASCII files with known content, read buffered (once and after other reads) and unbuffered with every single page, all '
        'non-empty subsets (files of up to 4 pages), random subsets, ranges, tuples, sets, arrays and generators of '
        'pages, pages past the end, and no page at all; compared with the content of just those pages. Distinct by file and selection.')
ASSUMPTIONS = ['page numbers are non-negative and pages are delivered in file order']
REQUIRE = {'selections': 200, 'skipped_page_with_rows': 50, 'reread': 100, 'other_readers_read': 50, 'file_names_used_again': 15, 'results_kept': 500, 'no_page_selected': 5}


def run(ctx):
    import numpy as np
    rng = ctx.rng
    for i in ctx.cases(70, 900):
        mode = 'binary' if i % 2 else 'ascii'
        nrc = mode == 'ascii' and rng.random() < 0.3
        npages = ctx.size([1, 2, 2, 3, 3, 4, 6, 12], 120)
        doc = g.document(rng, mode, pages=npages, rows=rng.choice([1, 1, 2, 3, 8, 20]), no_row_counts=nrc,
                         ncols=rng.choice([1, 2, 4]) if nrc or rng.random() < 0.9 else 0, uneven=rng.random() < 0.5)
        if nrc:
            doc.pages = [(pv, r or [tuple(g.value(rng, c['type'], False) for c in doc.cols)]) for pv, r in doc.pages]
        data, _ = g.encode(doc, rng)
        path = ctx.write(data, '.sdds')
        sels = [[p] for p in range(npages)]
        if npages <= 4:
            sels += [list(s) for k in range(2, npages + 1) for s in itertools.combinations(range(npages), k)]
        else:
            sels += [sorted(rng.sample(range(npages), rng.randint(2, npages))) for _ in range(5)]
        sels = rng.sample(sels, min(len(sels), 6))
        sels.append([rng.randrange(npages), npages + rng.randint(0, 5)])
        if npages > 1:
            sels.append(rng.sample(range(npages), npages))       # any order
            sels.append([npages - 1, npages - 1])                # repeated
        if rng.random() < 0.2:
            sels.append(rng.choice([[], [npages], [npages + 2, npages + 1]]))   # nothing
        for sel in sels:
            want = [p for p in range(npages) if p in sel]
            form = rng.choice(['list', 'list', 'tuple', 'set', 'range', 'array', 'generator'])
            if form == 'range':
                sel = range(min(sel), max(sel) + 1) if sel else range(0)
                want = [p for p in sel if p < npages]
            ctx.count('no_page_selected', not want)
            make = {'list': lambda: list(sel), 'tuple': lambda: tuple(sel), 'set': lambda: set(sel), 'range': lambda: sel,
                    'array': lambda: np.array(list(sel)), 'generator': lambda: (p for p in sel)}[form]
            ctx.case((content_key(doc), tuple(sel), form), dict(summary(doc, data), selected=list(sel), given_as=form))
            skipped = [p for p in range(max(want) + 1) if p not in want] if want else []
            ctx.count('selections')
            ctx.count('skipped_page_with_rows', sum(bool(doc.pages[p][1]) for p in skipped))
            for buffer in (True, False):
                reader = load(ctx, path, buffer, pages=make(), mechanism='read-pages')
                if reader is None:
                    continue
                with ctx.oracle('page-selection'):
                    diff = g.compare(doc, reader, want)
                    ctx.check(diff is None, 'page-selection',
                              lambda: 'pages=%s(%s) buffer=%s mode=%s: %s' % (form, list(sel), buffer, mode, diff))
                hold(ctx, reader)
        ctx.drop(path)
