"""Observed reading of SDDS files, shared by the SDDS checks."""
import os

from mon import sddsgen as g


def summary(doc, data=None):
    d = {'mode': doc.mode, 'pages': [len(r) for _, r in doc.pages][:12],
         'parameters': [(p['name'], p['type'], p['fixed']) for p in doc.params],
         'columns': [(c['name'], c['type']) for c in doc.cols], 'no_row_counts': doc.no_row_counts}
    if data is not None:
        d['file'] = data.decode('latin-1') if len(data) < 1500 else '%d bytes, starts %r' % (len(data), data[:600])
    return d


class Others:
    """Readers of other files that are alive while a file is read; they read their own file, before and after."""

    def __init__(self, ctx):
        from rsbeams.rsdata.SDDS import readSDDS
        self.ctx, self.alive = ctx, []
        if ctx.rng.random() > 0.3:
            return
        for _ in range(ctx.rng.choice([1, 1, 2])):
            doc = g.document(ctx.rng, ctx.rng.choice(['ascii', 'binary']), pages=ctx.rng.choice([1, 2, 3]))
            limit = g.string_lengths(doc, ctx.rng)
            path = ctx.write(g.encode(doc, ctx.rng)[0], '.sdds')
            out = ctx.call(readSDDS, path, buffer=ctx.rng.random() < 0.5, **limit)
            if ctx.expect_ok(out, 'other-open', 'readSDDS of another file'):
                self.alive.append([doc, path, out.value, False])
                if ctx.rng.random() < 0.4:
                    self.read(self.alive[-1])

    def read(self, entry):
        doc, path, reader, done = entry
        ctx = self.ctx
        ctx.count('other_readers_read')
        if ctx.expect_ok(ctx.call(reader.read), 'other-read', 'read of another open file'):
            with ctx.oracle('other-content'):
                diff = g.compare(doc, reader)
                ctx.check(diff is None, 'other-content', lambda: 'a second open file: %s' % diff)
        entry[3] = True

    def step(self):
        for entry in self.alive:
            if not entry[3] and self.ctx.rng.random() < 0.3:
                self.read(entry)

    def finish(self):
        for entry in self.alive:
            doc, path, reader, done = entry
            if not done:
                self.read(entry)
            with self.ctx.oracle('other-content'):
                diff = g.compare(doc, reader)
                self.ctx.check(diff is None, 'other-content', lambda: 'a second open file, looked at later: %s' % diff)
            close(reader)
            self.ctx.drop(path)


def close(reader):
    # files are not closed by the reader itself
    if hasattr(getattr(reader, 'openf', None), 'close'):
        reader.openf.close()


def hold(ctx, reader):
    for name in ('parameters', 'columns'):
        if hasattr(reader, name):
            ctx.hold('results-kept', 'the %s of a file read before' % name, getattr(reader, name))


def load(ctx, path, buffer, pages=None, mechanism='read', report=True, **kw):
    """Open and read; returns the reader or None after reporting a violation."""
    from rsbeams.rsdata.SDDS import readSDDS
    before = os.stat(path)
    others = Others(ctx) if report else None
    out = ctx.call(readSDDS, path, buffer=buffer, **kw)
    if report and not ctx.expect_ok(out, mechanism + '-open', 'readSDDS(buffer=%s)' % buffer):
        return None
    if not out.ok:
        return out
    reader = out.value
    ctx.count('files_opened')
    try:
        if others:
            others.step()
        # what was read before does not matter
        for before_pages in ctx.rng.choice([[], [], [], [()], [([0],)], [(), ([0],)], [([1, 0],), ()], [([0],), ([0],)]]) if report else []:
            ctx.count('reread')
            if not ctx.expect_ok(ctx.call(reader.read, *before_pages), mechanism, 'earlier read%r with buffer=%s' % (before_pages, buffer)):
                return None
            others.step()
        got = ctx.call(reader.read, *(() if pages is None else (pages,)))
        if report and not ctx.expect_ok(got, mechanism, 'read(%s) with buffer=%s'
                                        % ('' if pages is None else 'pages=%r' % (pages,), buffer)):
            return None
        if not got.ok:
            return got
    finally:
        close(reader)
    after = os.stat(path)
    ctx.check(not out.written and not got.written and (before.st_size, before.st_mtime_ns) == (after.st_size, after.st_mtime_ns),
              mechanism + '-writes', 'reading a file opens files for writing: %s' % (out.written + got.written))
    ctx.count('files_read')
    if others:
        others.finish()
    return reader


def content_key(doc):
    return (doc.mode, doc.no_row_counts, tuple(p['type'] + str(p['fixed']) for p in doc.params),
            tuple(c['type'] for c in doc.cols), tuple(len(r) for _, r in doc.pages), repr(doc.pages[:1])[:200])
