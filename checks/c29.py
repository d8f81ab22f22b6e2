"""C29: plots."""
import math
import os

os.environ['MPLBACKEND'] = 'Agg'

import numpy as np

from mon import sddsgen as g
from mon.core import snapshot

MODULES = ['rsbeams.rsplot.util', 'rsbeams.rsplot.beam_plots', 'rsbeams.rsplot.plot_ptcls', 'rsbeams.rsplot.RsScatterPS6D']
TECHNIQUE = ('reference monitor: the artists of each figure (lines, points, images, rectangles, contours, labels, limits) are compared with values '
             'computed from the generated data; bitwise comparison of the data before and after; mathematical text is parsed')
RULE = ('Random SDDS files with one to three pages (with and without charge, parameters, symbols, units), all plot functions with random page, bins, '
        'scale, limits and files to save; beams of 2 to 5000 particles with offsets, correlations, equal values; scatter, line, contour and combined '
        'plots with all axis types.  Non-trivial: more than two particles; distinct by data.')
ASSUMPTIONS = ['Agg backend; binary files (text columns of ASCII files are bytes); gridded fields are square and symmetric']
DEPTH = 1
REQUIRE = {'charge_of_later_page': 8, 'ascii': 10, 'projections': 20, 'images': 50, 'curves': 50, 'currents': 10, 'normalised': 1, 'profiles': 40, 'magnets': 80, 'symbols': 200, 'scatter': 5, 'hidden': 10000,
           'contours': 8, 'gridded': 30, 'combined': 20, 'scatter6d': 30, 'saved': 3, 'histograms': 80}
GREEK = {'a': 'alpha', 'b': 'beta', 'g': 'gamma', 'd': 'delta', 'e': 'varepsilon', 'z': 'zeta', 'c': 'eta', 'G': 'Gamma', 'D': 'Delta', 'Q': 'Theta',
         'q': 'theta', 'i': 'iota', 'k': 'kappa', 'l': 'lambda', 'm': 'mu', 'n': 'nu', 'x': 'xi', 'L': 'Lambda', 'X': 'Xi', 'P': 'Pi', 'p': 'pi',
         'r': 'rho', 's': 'sigma', 't': 'tau', 'S': 'Sigma', 'U': 'Upsilon', 'F': 'Phi', 'u': 'upsilon', 'f': 'phi', 'v': 'chi', 'y': 'psi',
         'w': 'omega', 'Y': 'Psi', 'W': 'Omega'}


def symbol(ctx):
    """(SDDS symbol, text that shows it, without spaces)"""
    rng = ctx.rng
    s, t, mode = '', '', 'r'
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.random()
        if k < 0.4:
            if mode != 'g':
                s, mode = s + '$g', 'g'
            c = rng.choice(sorted(GREEK))
            s, t = s + c, t + '\\' + GREEK[c] + ' '
        elif k < 0.5:
            s, t, mode = s + '$sa', t + '\\pm ', 's'
        else:
            if mode != 'r':
                s, mode = s + {'g': '$r', 's': rng.choice(['$r', '$e'])}[mode], 'r'
            w = rng.choice(['x', 'y', 'S', 'xy', 'C', '1', "x'", '(x)', '1/m', 'Sx', '2 x'])
            s, t = s + w, t + w
        if rng.random() < 0.3:
            if mode != 'r':
                s, mode = s + '$r', 'r'
            up, w = rng.choice('ab'), rng.choice(['x', '2', 'rms', 'x,y', '-1'])
            s, t = s + '$' + up + w + '$n', t + {'a': '^', 'b': '_'}[up] + '{' + w + '}'
            if rng.random() < 0.5:
                s, t = s + 'm', t + 'm'
        elif mode == 'g' and rng.random() < 0.4:  # The subscript is Greek as well, and so is what follows
            up, w = rng.choice('ab'), [rng.choice(sorted(GREEK)) for _ in range(rng.choice([1, 1, 2]))]
            s, t = s + '$' + up + ''.join(w) + '$n', t + {'a': '^', 'b': '_'}[up] + '{' + ''.join('\\' + GREEK[c] + ' ' for c in w) + '}'
    return s, t


UNITS = [('m', 'm'), ('', None), ('m$be$nc', 'm_{e}c'), ('1/m$a2$n', '1/m^{2}'), ('rad', 'rad'), ('$gm$rm', '\\mu m'), ('1/(2$gp$r)', '1/(2\\pi)'), ('C', 'C')]


def squeeze(s):
    return ''.join(s.split())


def show(s):
    return '$' + s + '$'


def parses(ctx, s, what):
    from matplotlib.mathtext import MathTextParser
    if '$$' in s:
        return
    try:
        MathTextParser('agg').parse(s)
    except ValueError as err:
        ctx.fail('mathtext', '%s: %r cannot be shown: %s' % (what, s, str(err).splitlines()[-1]))


def symbols(ctx):
    from rsbeams.rsplot.util import format_symbol
    for _ in range(20):
        s, t = symbol(ctx)
        ctx.case(('symbol', s), {'symbol': s})
        ctx.count('symbols')
        out = ctx.call(format_symbol, s)
        if ctx.expect_ok(out, 'symbol', repr(s)):
            ctx.check(squeeze(out.value) == squeeze(show(t)), 'symbol', 'symbol %r gives %r, expected %r' % (s, out.value, show(t)))
            parses(ctx, out.value, 'symbol %r' % s)
        out = ctx.call(format_symbol, s, matplotlib=False)
        if ctx.expect_ok(out, 'symbol', repr(s)):
            ctx.check(squeeze(out.value) == squeeze(t), 'symbol', 'symbol %r without $ gives %r, expected %r' % (s, out.value, t))


# -- histograms -----------------------------------------------------------------------------------------------------
def edges(x, n):
    lo, hi = float(np.min(x)), float(np.max(x))
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    return np.linspace(lo, hi, n + 1)


def close_to(x, e):
    """Number of values that rounding may move to another bin."""
    width = e[1] - e[0]
    scale = 1e-9 * width + 1e-14 * max(abs(e[0]), abs(e[-1]))
    i = np.clip(np.rint((x - e[0]) / width), 0, len(e) - 1).astype(int)
    return np.abs(x - e[i]) <= scale


def hist(ctx, got, x, n, what, mech):
    e = edges(x, n)
    want = np.histogram(x, bins=e)[0]
    got = np.asarray(got)
    if ctx.check(got.shape == want.shape, mech, '%s: %s bins, expected %d' % (what, got.shape, n)):
        slack = 2 * np.count_nonzero(close_to(x, e)[(x != x.min()) & (x != x.max())])
        ctx.check(np.abs(got - want).sum() <= slack and got.sum() == x.size, mech, '%s: counts %s, expected %s' % (what, got[:20], want[:20]))
        ctx.count('histograms')


def centres(ctx, got, x, n, what, mech):
    e = edges(x, n)
    want = (e[1:] + e[:-1]) / 2
    got = np.asarray(got)
    ctx.check(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-9 * (e[1] - e[0]) + 1e-14 * np.abs(e).max()), mech,
              '%s: bins are at %s, expected %s' % (what, got[:5], want[:5]))


def image(ctx, ax, x, y, n, what):
    """Density image: x to the right, y upwards."""
    if not ctx.check(len(ax.images) == 1, 'image', '%s: %d images' % (what, len(ax.images))):
        return
    im = ax.images[0]
    ex, ey = edges(x, n), edges(y, n)
    want = np.histogram2d(x, y, bins=(ex, ey))[0].T
    got = np.asarray(im.get_array())
    ctx.count('images')
    if ctx.check(got.shape == want.shape, 'image', '%s: image has shape %s' % (what, got.shape)):
        inner = (x != x.min()) & (x != x.max()) & close_to(x, ex) | (y != y.min()) & (y != y.max()) & close_to(y, ey)
        ctx.check(np.abs(got - want).sum() <= 2 * np.count_nonzero(inner) and got.sum() == x.size, 'image', '%s: image differs from the density' % what)
    ctx.check(im.origin == 'lower', 'image', '%s: origin is %s' % (what, im.origin))
    ctx.check(np.allclose(im.get_extent(), (ex[0], ex[-1], ey[0], ey[-1]), rtol=1e-12, atol=1e-12 * max(ex[-1] - ex[0], ey[-1] - ey[0]) * 0), 'extent',
              '%s: extent %s, expected %s' % (what, im.get_extent(), (ex[0], ex[-1], ey[0], ey[-1])))


def utilities(ctx):
    from rsbeams.rsplot import util
    rng = ctx.rng
    x = coordinates(ctx, rng.choice([2, 10, 1000]), 1)[0]
    n = rng.choice([1, 2, 7, 64, 256, 10.0])
    out = ctx.call(util.get_histogram_points, x, n, frozen=(x,))
    ctx.case(('histogram', x.tobytes(), n), {'n': n, 'size': x.size}, nontrivial=x.size > 2)
    if ctx.expect_ok(out, 'histogram', 'histogram'):
        ctx.check(not out.changed, 'data', 'data are changed')
        hist(ctx, out.value[1], x, int(n), 'get_histogram_points', 'histogram')
        centres(ctx, out.value[0], x, int(n), 'get_histogram_points', 'histogram')
    q = rng.choice([1e-9, -1e-9, 1.0, 10 ** rng.uniform(-15, 0)])
    kw = {} if rng.random() < 0.3 else {'bin_number': n}
    out = ctx.call(util.get_current_from_t, x, q, frozen=(x,), **kw)
    if ctx.expect_ok(out, 'current', 'get_current_from_t'):
        ctx.check(not out.changed, 'data', 'data are changed')
        current(ctx, out.value[0], out.value[1], x, q, int(kw.get('bin_number', 256)), 'get_current_from_t', 1.0)


def current(ctx, bins, values, t, q, n, what, scale):
    t = t - np.average(t)
    e = edges(t, n)
    w = e[1] - e[0]
    centres(ctx, np.asarray(bins) / scale, t, n, what, 'current')
    values = np.asarray(values)
    hist(ctx, np.rint(values * w * t.size / q), t, n, what, 'current')
    ctx.check(abs(values.sum() * w - q) <= 1e-9 * abs(q), 'charge', '%s: charge of the curve %r, expected %r' % (what, values.sum() * w, q))
    ctx.count('currents')


# -- SDDS files -----------------------------------------------------------------------------------------------------
def coordinates(ctx, n, rows):
    rng = ctx.rng
    out = []
    for _ in range(rows):
        x = {0: ctx.np.normal, 1: ctx.np.uniform}[rng.randrange(2)](size=n) * 10 ** rng.uniform(-9, 2) * rng.choice([1, -1])
        if rng.random() < 0.5:
            x = x + rng.choice([1, -1]) * np.std(x) * rng.choice([0.1, 3, 1e3])
        if out and rng.random() < 0.4:
            x = x + out[-1] * rng.uniform(-2, 2)
        if n > 4 and rng.random() < 0.15:
            x[: n // 2] = x[0]
        if rng.random() < 0.05:
            x[:] = x[0]
        out.append(x)
    return out


class Charge:
    pass


def beam_file(ctx, kind=None, pages_in=(1, 2, 2, 3)):
    rng = ctx.rng
    doc = g.Doc()
    names = ['x', 'xp', 'y', 'yp', 't', 'p'] + rng.choice([[], ['particleID'], ['dt']])
    rng.shuffle(names)
    doc.cols = [g.describe(rng, n, 'double') for n in names]
    kind = kind or rng.choice(['charge', 'charge', 'zero', 'other', 'none', 'fixed'])
    if kind in ('charge', 'zero', 'fixed'):
        doc.params.append(g.describe(rng, 'Charge', 'double'))
    if kind == 'fixed':
        doc.params[0]['fixed'] = rng.choice([0.0, 10 ** rng.uniform(-13, -7)])
    if kind != 'none' and rng.random() < 0.5 or kind == 'other':
        doc.params.append(g.describe(rng, 'pCentral', 'double'))
    pages = []
    for _ in range(rng.choice(pages_in)):
        n = rng.choice([2, 3, 20, 500, 5000])
        data = dict(zip(names, coordinates(ctx, n, len(names))))
        data['p'] = np.abs(data['p']) + 1.0
        if np.ptp(data['p']) < 1e-9 * data['p'][0]:
            data['p'] = ctx.np.normal(size=n) + 1000
        data['t'] = data['t'] * 1e-9
        params = {'Charge': 0.0 if kind == 'zero' else rng.choice([1e-9, 10 ** rng.uniform(-13, -7)]), 'pCentral': 1000.0}
        if kind == 'fixed':
            params['Charge'] = doc.params[0]['fixed']
        params = {p['name']: params[p['name']] for p in doc.params}
        doc.pages.append((params, list(zip(*[data[n].tolist() for n in names]))))
        pages.append((data, params))
    return doc, pages


def load(ctx, doc):
    from rsbeams.rsdata.SDDS import readSDDS
    doc.mode = ctx.rng.choice(['binary', 'binary', 'ascii'])
    ctx.count(doc.mode)
    path = ctx.write(g.encode(doc, ctx.rng)[0], '.sdds')
    r = readSDDS(path, **ctx.rng.choice([{}, {'buffer': False}]))
    r.read()
    return r, path


def save_option(ctx, kw):
    if ctx.rng.random() < 0.06:
        kw['save'] = ctx.path(ctx.rng.choice(['.png', '.pdf', '.svg']))
    return kw.get('save')


def saved(ctx, path, out, what):
    real = {os.path.realpath(p) for p in out.written if 'matplotlib' not in p and 'font' not in p}
    ctx.check(real <= ({os.path.realpath(path)} if path else set()), 'files', '%s writes %s' % (what, real))
    if path and ctx.check(os.path.exists(path), 'saved', '%s: no file is saved' % what):
        with open(path, 'rb') as f:
            head = f.read(5)
        start = {'.png': b'\x89PNG', '.pdf': b'%PDF', '.svg': b'<?xml'}[path[-4:]]
        ctx.check(head.startswith(start), 'saved', '%s: file starts with %r' % (what, head))
        ctx.count('saved')
        ctx.drop(path)


def one_figure(ctx, what):
    import matplotlib.pyplot as plt
    ctx.check(len(plt.get_fignums()) == 1, 'figure', '%s: %d figures' % (what, len(plt.get_fignums())))
    return plt.gcf()


def check_line(ctx, line, x, y, what, mech='curve'):
    ctx.check(np.array_equal(line.get_xdata(), x) and np.array_equal(line.get_ydata(), y), mech, '%s: the curve is not the data' % what)
    ctx.count('curves')


def beam_plots(ctx, charges=False):
    import matplotlib.pyplot as plt
    from rsbeams.rsplot import beam_plots as bp
    rng = ctx.rng
    doc, pages = beam_file(ctx, 'charge', (2, 3, 4)) if charges else beam_file(ctx)
    r, path = load(ctx, doc)
    before = snapshot([r.columns, r.parameters])
    for _ in range(rng.choice([1, 2])):
        plt.close('all')
        page = rng.choice([None, rng.randrange(len(pages)), len(pages) - 1, len(pages) - 1])
        data, params = pages[page or 0]
        kw = {} if page is None else {'page': page}
        to = save_option(ctx, kw)
        kind = 'longitudinal' if charges else rng.choice(['four', 'longitudinal', 'longitudinal', 'horizontal', 'vertical', 'projection'])
        what = '%s %s of page %r' % (kind, {k: v for k, v in kw.items() if k != 'save'}, page)
        ctx.case((kind, data['x'].tobytes(), page), {'kind': kind, 'page': page, 'particles': data['x'].size, 'parameters': params},
                 nontrivial=data['x'].size > 2)
        if kind == 'four':
            n = rng.choice([None, 1, 10, 200])
            if n is not None:
                kw['bins'] = n
            out = ctx.call(bp.phase_space, r, **kw)
            if ctx.expect_ok(out, kind, what):
                four(ctx, one_figure(ctx, what), data, n or 128, what)
        elif kind == 'longitudinal':
            charge = rng.choice([None, None, None, 'auto', 2e-9, 0.5])
            if charge is not None:
                kw['charge'] = charge
            out = ctx.call(bp.longitudinal_phase_space, r, **kw)
            if ctx.expect_ok(out, kind, what):
                q = params.get('Charge', 0.0) if charge in (None, 'auto') else charge
                ctx.count('charge_of_later_page', int(charge in (None, 'auto') and bool(page) and 0 != q != pages[0][1].get('Charge')))
                longitudinal(ctx, one_figure(ctx, what), data, q, what)
        else:
            a, b, la, lb = {'horizontal': ('x', 'xp', 'x (mm)', "x' (mrad)"), 'vertical': ('y', 'yp', 'y (mm)', "y' (mrad)")}.get(
                kind, (rng.choice(['x', 'y', 'yp']), rng.choice(['x', 'yp', 'xp']), '', ''))
            if kind == 'projection':
                if rng.random() < 0.5:
                    la, lb = 'first', 'second'
                    kw.update(x_label=la, y_label=lb)
                out = ctx.call(bp.phase_space_projection, r, a, b, **kw)
            else:
                out = ctx.call(getattr(bp, kind + '_phase_space'), r, **kw)
            if ctx.expect_ok(out, kind, what):
                projection(ctx, one_figure(ctx, what), data[a] * 1e3, data[b] * 1e3, la, lb, what)
        if out.ok:
            saved(ctx, to, out, what)
        ctx.check(snapshot([r.columns, r.parameters]) == before, 'data', '%s changes the data' % what)
    plt.close('all')
    ctx.drop(path)


def four(ctx, fig, data, n, what):
    x, xp, y, yp = (data[k] * 1e3 for k in ('x', 'xp', 'y', 'yp'))
    t = (data['t'] - np.average(data['t'])) * 1e12
    d = data['p'] / np.average(data['p']) - 1
    ctx.check(len(fig.axes) == 4, 'figure', '%s: %d axes' % (what, len(fig.axes)))
    with ctx.oracle('four'):
        for ax, (a, b), labels in zip(fig.axes, [(x, xp), (y, yp), (x, y), (t, d)],
                                      [('x (mm)', "x' (mrad)"), ('y (mm)', "y' (mrad)"), ('x (mm)', 'y (mm)'), ('t (ps)', r'$\delta$ ( )')]):
            if b is d:
                # differences of nearly equal numbers
                im = ax.images[0]
                ctx.check(np.allclose(im.get_extent()[2:], (d.min(), d.max()), atol=1e-12, rtol=1e-9) or np.ptp(d) < 1e-12, 'extent',
                          '%s: momentum from %s, expected %s' % (what, im.get_extent()[2:], (d.min(), d.max())))
                ctx.check(np.allclose(im.get_extent()[:2], edges(t, n)[[0, -1]], atol=1e-3 * np.abs(data['t']).max(), rtol=1e-12) or np.ptp(t) < 1e-2 * np.abs(data['t']).max(), 'extent',
                          '%s: time from %s, expected %s' % (what, im.get_extent()[:2], (t.min(), t.max())))
                got = np.asarray(im.get_array()).sum(axis=0)
                hist(ctx, got, t, n, what, 'image')
                p = data['p'] - np.average(data['p'])
                hist(ctx, np.asarray(im.get_array()).sum(axis=1), p / np.average(data['p']), n, what, 'image')
            else:
                image(ctx, ax, a, b, n, '%s, %s' % (what, labels))
            ctx.check((ax.get_xlabel(), ax.get_ylabel()) == labels, 'labels', '%s: labels %s, expected %s' % (what, (ax.get_xlabel(), ax.get_ylabel()), labels))


def projection(ctx, fig, x, y, la, lb, what):
    ctx.count('projections')
    if not ctx.check(len(fig.axes) == 3, 'figure', '%s: %d axes' % (what, len(fig.axes))):
        return
    with ctx.oracle('projection'):
        hm, mom, tim = fig.axes
        image(ctx, hm, x, y, 128, what)
        hist(ctx, mom.lines[0].get_xdata(), y, 256, what, 'projection')
        centres(ctx, mom.lines[0].get_ydata(), y, 256, what, 'projection')
        hist(ctx, tim.lines[0].get_ydata(), x, 256, what, 'projection')
        centres(ctx, tim.lines[0].get_xdata(), x, 256, what, 'projection')
        labels = (hm.get_ylabel(), mom.get_xlabel(), tim.get_xlabel(), tim.get_ylabel())
        ctx.check(labels == (lb, 'Counts ()', la, 'Counts ()'), 'labels', '%s: labels %s' % (what, labels))


def longitudinal(ctx, fig, data, q, what):
    if not ctx.check(len(fig.axes) == 3, 'figure', '%s: %d axes' % (what, len(fig.axes))):
        return
    with ctx.oracle('longitudinal'):
        hm, mom, tim = fig.axes
        t = data['t'] - np.average(data['t'])
        p = data['p']
        image(ctx, hm, t * 1e12, p, 128, what)
        hist(ctx, mom.lines[0].get_xdata(), p, 256, what, 'projection')
        centres(ctx, mom.lines[0].get_ydata(), p, 256, what, 'projection')
        bins, values = tim.lines[0].get_xdata(), np.asarray(tim.lines[0].get_ydata())
        if q == 0:
            ctx.count('normalised')
            t = t - np.average(t)
            peak = np.histogram(t, bins=edges(t, 256))[0].max()
            ctx.check(values.max() == 1, 'normalised', '%s: peak is %r' % (what, values.max()))
            # the peak may differ by values at the edges of bins
            hist(ctx, np.rint(values * t.size / values.sum()), t, 256, what, 'normalised')
            centres(ctx, np.asarray(bins) / 1e12, t, 256, what, 'normalised')
        else:
            current(ctx, bins, values, t, q, 256, what, 1e12)
        labels = (hm.get_ylabel(), mom.get_xlabel(), tim.get_xlabel(), tim.get_ylabel())
        ctx.check(labels == ('p ($m_e c$)', 'Counts ()', 't (ps)', 'Counts ()' if q == 0 else 'Current (A)'), 'labels', '%s: labels %s' % (what, labels))


# -- beamlines ------------------------------------------------------------------------------------------------------
MAGNETS = {'QUAD': 'green', 'KQUAD': 'green', 'SBEND': 'red', 'CSBEND': 'red', 'CSRCSBEND': 'red', 'RBEND': 'red', 'SBEN': 'red', 'SEXT': 'blue',
           'RFCW': 'orange', 'RFCA': 'orange', 'OCTU': 'purple', 'KOCT': 'purple'}
OTHER = ['DRIF', 'MARK', 'WATCH', 'MAXAMP', 'CSRDRIFT', 'EDRIFT', 'HKICK']


def other(ctx):
    """The type of an element: of a magnet, like the one of a magnet, or of another element."""
    t = ctx.rng.choice(sorted(MAGNETS) + OTHER)
    if ctx.rng.random() < 0.15:
        t = ctx.rng.choice([t[:-1], t[1:], t + 'X', t.lower(), 'C' + t, t.capitalize()])
    return t


def line_file(ctx):
    rng = ctx.rng
    doc = g.Doc()
    names = ['Sx', 'Sy', 'betax', 'pCentral', 'etax']
    doc.cols = [{'name': 's', 'type': 'double', 'fixed': None, 'units': 'm'}, {'name': 'ElementType', 'type': 'string', 'fixed': None}]
    labels = {}
    for n in names:
        d = {'name': n, 'type': 'double', 'fixed': None}
        label = ''
        if rng.random() < 0.6:
            d['symbol'], label = symbol(ctx)
            label = show(label)
        if rng.random() < 0.6:
            d['description'] = rng.choice(['beam size', 'rms, x', 'momentum'])
        u, unit = rng.choice(UNITS)
        if u:
            d['units'] = u
        labels[n] = (label or d.get('description', n), '$-$' if unit is None else show(unit))
        doc.cols.append(d)
    rng.shuffle(doc.cols)
    pages = []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice([1, 2, 5, 40])
        first = rng.random() < 0.7
        s = np.cumsum([0.0 if i == 0 and first else rng.choice([0.0, 0.1, 1.0, rng.uniform(0, 3)]) for i in range(n)])
        types = [rng.choice(['MARK', '_BEG_'] if first else sorted(MAGNETS))] + [other(ctx) for _ in range(n - 1)]
        data = {'s': s, 'ElementType': types}
        for q in names:
            data[q] = ctx.np.normal(size=n)
        doc.pages.append(({}, list(zip(*[data[c['name']] if c['name'] == 'ElementType' else data[c['name']].tolist() for c in doc.cols]))))
        pages.append(data)
    return doc, pages, labels


def profile(ctx, ax, collection, data, scale, height, what):
    from matplotlib.colors import same_color
    with ctx.oracle('profile'):
        s = data['s'] * scale
        want = []
        for i, t in enumerate(data['ElementType']):
            if t in MAGNETS:
                want.append((s[i - 1] if i else 0.0, s[i], 'tab:' + MAGNETS[t]))
        ctx.count('magnets', len(want))
        ctx.count('profiles')
        paths = collection.get_paths()
        tol = 1e-9 * abs(s[-1])
        if ctx.check(len(paths) == len(want), 'profile', '%s: %d magnets, expected %d' % (what, len(paths), len(want))):
            for p, c, (a, b, color) in zip(paths, collection.get_facecolor(), want):
                e = p.get_extents()
                ctx.check(abs(e.x0 - a) <= tol and abs(e.x1 - b) <= tol and abs(e.y0 + height / 2) <= 1e-12 * height and abs(e.y1 - height / 2)
                          <= 1e-12 * height, 'profile', '%s: magnet at %s, expected from %r to %r with height %r' % (what, e, a, b, height))
                ctx.check(same_color(c, color), 'profile', '%s: color %s, expected %s' % (what, c, color))
        ctx.check(collection in ax.collections, 'profile', '%s: magnets are not in the axes' % what)
        x = np.concatenate([np.asarray(ln.get_xdata(), dtype=float) for ln in ax.lines])
        y = np.concatenate([np.asarray(ln.get_ydata(), dtype=float) for ln in ax.lines])
        ctx.check(not np.any(y), 'profile', '%s: lines are not in the middle' % what)
        ctx.check(abs(x.min()) <= tol and abs(x.max() - s[-1]) <= tol, 'profile', '%s: lines from %r to %r, expected 0 to %r' % (what, x.min(), x.max(), s[-1]))
        for ln in ax.lines:
            d = np.asarray(ln.get_xdata(), dtype=float)
            ctx.check(np.ptp(d) <= tol or same_color(ln.get_color(), 'k') or any(d.min() >= a - tol and d.max() <= b + tol and same_color(ln.get_color(), c)
                                                                                  for a, b, c in want),
                      'profile', '%s: a %s line from %r to %r' % (what, ln.get_color(), d.min(), d.max()))


def beamlines(ctx):
    import matplotlib.pyplot as plt
    from rsbeams.rsplot import beam_plots as bp, util
    rng = ctx.rng
    plt.close('all')
    doc, pages, labels = line_file(ctx)
    r, path = load(ctx, doc)
    before = snapshot([r.columns])
    page = rng.choice([None, rng.randrange(len(pages))])
    data = pages[page or 0]
    ctx.case((data['s'].tobytes(), data['ElementType'], page), {'s': data['s'].tolist(), 'types': data['ElementType'], 'page': page},
             nontrivial=len(data['s']) > 1)
    fig, ax = plt.subplots()
    kw = {}
    if rng.random() < 0.6:
        kw['scale'] = rng.choice([1.0, 1e3, 100, 0.01])
    if rng.random() < 0.5:
        kw['height'] = rng.choice([0.25, 1.0, 0.1])
    out = ctx.call(util.plot_profile, r.columns[page or 0], ax, **kw)
    what = 'plot_profile %s' % kw
    if ctx.expect_ok(out, 'profile', what):
        profile(ctx, ax, out.value, data, kw.get('scale', 1.0), kw.get('height', 0.25), what)
    plt.close('all')
    kw = {} if page is None else {'page': page}
    quantities = rng.choice([None, ['Sx'], rng.sample(sorted(labels), 3)])
    if quantities:
        kw['quantities'] = quantities
    for k in ('xlim', 'ylim'):
        if rng.random() < 0.3:
            kw[k] = (-0.5, rng.choice([1.0, 7.5]))
    to = save_option(ctx, kw)
    what = 'beamline_profile %s' % {k: v for k, v in kw.items() if k != 'save'}
    out = ctx.call(bp.beamline_profile, r, **kw)
    if ctx.expect_ok(out, 'beamline', what):
        with ctx.oracle('beamline'):
            fig = one_figure(ctx, what)
            a1, a2 = fig.axes
            profile(ctx, a1, a1.collections[0], data, 1.0, 0.25, what)
            names = quantities or ['Sx', 'Sy']
            ctx.check(len(a2.lines) == len(names), 'curves', '%s: %d curves' % (what, len(a2.lines)))
            for ln, n in zip(a2.lines, names):
                check_line(ctx, ln, data['s'], data[n], '%s, %s' % (what, n))
                ctx.check(squeeze(ln.get_label()) == squeeze(labels[n][0]), 'labels', '%s: label of %s is %r, expected %r' % (what, n, ln.get_label(), labels[n][0]))
            ctx.check(a2.get_xlabel() == 's (m)', 'labels', '%s: label %r' % (what, a2.get_xlabel()))
            want = ','.join(labels[n][0] for n in names) + ' (' + ','.join(labels[n][1] for n in names) + ')'
            ctx.check(squeeze(a2.get_ylabel()) == squeeze(want), 'labels', '%s: label %r, expected %r' % (what, a2.get_ylabel(), want))
            parses(ctx, a2.get_ylabel(), what)
            for k, got in (('xlim', a2.get_xlim()), ('ylim', a2.get_ylim())):
                ctx.check(k not in kw or np.allclose(got, kw[k]), 'limits', '%s: %s is %s' % (what, k, got))
            if 'xlim' not in kw:
                ctx.check(a2.get_xlim()[0] <= 0 and a2.get_xlim()[1] >= data['s'][-1], 'limits', '%s: x range %s' % (what, a2.get_xlim()))
        saved(ctx, to, out, what)
    ctx.check(snapshot([r.columns]) == before, 'data', '%s changes the data' % what)
    plt.close('all')
    ctx.drop(path)


# -- particles ------------------------------------------------------------------------------------------------------
def points(ax):
    out = [np.asarray(c.get_offsets()) for c in ax.collections if type(c).__name__ == 'PathCollection']
    return np.concatenate(out) if out else np.zeros((0, 2))


def density(h, extent, x, y):
    """Bilinear interpolation in the way the contours are placed: centres of the outer bins at the limits."""
    nx, ny = h.shape
    u = np.clip((x - extent[0]) / (extent[1] - extent[0]) * (nx - 1), 0, nx - 1)
    v = np.clip((y - extent[2]) / (extent[3] - extent[2]) * (ny - 1), 0, ny - 1)
    i, j = np.minimum(u.astype(int), nx - 2), np.minimum(v.astype(int), ny - 2)
    u, v = u - i, v - j
    cells = np.stack([h[i, j], h[i + 1, j], h[i, j + 1], h[i + 1, j + 1]])
    return cells.min(axis=0), cells.max(axis=0)


def plain_cells(x, ex, d):
    """Particles that are not at the limits of the cells in which contours are drawn."""
    u = (x - ex[0]) / (ex[-1] - ex[0]) * (d - 1)
    return np.abs(u - np.round(u)) > 1e-6


def figure(ctx, n):
    """Dense regions of different kinds: rings, separate clusters, regions with notches."""
    rng, r = ctx.rng, ctx.np
    kind = rng.choice(['ring', 'rings', 'clusters', 'notch', 'edge', 'cluster in ring'])
    a, u = r.uniform(0, 2 * np.pi, n), r.normal(size=n)
    thin = rng.choice([0.02, 0.05, 0.1])
    if kind == 'ring':
        x, y = (1 + thin * u) * np.cos(a), (1 + thin * u) * np.sin(a)
    elif kind in ('rings', 'cluster in ring'):
        s = np.where(r.uniform(size=n) < 0.3, 0.0 if kind == 'cluster in ring' else 0.4, 1.0) + thin * u
        x, y = s * np.cos(a), s * np.sin(a)
    elif kind == 'clusters':
        centres = r.uniform(-1, 1, (rng.choice([2, 3, 5]), 2))
        k = r.integers(0, len(centres), n)
        x, y = centres[k, 0] + thin * u, centres[k, 1] + thin * r.normal(size=n)
    elif kind == 'notch':
        x, y = (1 + thin * u) * np.cos(0.75 * a), (1 + thin * u) * np.sin(0.75 * a)
    else:
        x, y = np.abs(u), r.normal(size=n)
    m = max(1, n // 100)
    x[:m], y[:m] = r.uniform(x.min(), x.max(), m), r.uniform(y.min(), y.max(), m)
    return [x * 10 ** rng.uniform(-6, 2), y * 10 ** rng.uniform(-6, 2)]


def scatter(ctx):
    import matplotlib.pyplot as plt
    from rsbeams.rsplot.plot_ptcls import scatter_contour
    rng = ctx.rng
    plt.close('all')
    flag = rng.choice(['scatter', 'line', 'scatter-line', 'contour', 'combo', 'combo'])
    axis = rng.choice(['linear', 'log-log', 'semi-logx', 'semi-logy'])
    n = rng.choice([2, 50, 2000, 10000] if flag in ('contour', 'combo') else [1, 2, 50, 500])
    x, y = figure(ctx, n) if flag == 'combo' and n > 50 and rng.random() < 0.6 else coordinates(ctx, n, 2)
    if flag in ('contour', 'combo') and (np.ptp(x) == 0 or np.ptp(y) == 0):
        return
    fig, ax = plt.subplots()
    if flag in ('line', 'scatter', 'scatter-line') and rng.random() < 0.3:  # Axes that were used before
        ax.set_xscale(rng.choice(['log', 'linear']))
        ax.set_yscale(rng.choice(['log', 'linear']))
    kw = {}
    if rng.random() < 0.6:
        kw['divs'] = rng.choice([5, 10, 25])
    if rng.random() < 0.4:
        kw['levels'] = rng.choice([2, 5, 10, 20] if rng.random() < 0.7 else [[1, 2, 5, 1000], np.array([8.0, 20.0, 50.0])])
    given = snapshot(kw)
    out = ctx.call(scatter_contour, flag, axis, x, y, ax, frozen=(x, y), **kw)
    ctx.case((flag, axis, x.tobytes()), {'flag': flag, 'axis': axis, 'particles': n, 'options': {k: str(v) for k, v in kw.items()}}, nontrivial=n > 2)
    what = '%s, %s plot of %d particles %s' % (flag, axis, n, kw)
    if not ctx.expect_ok(out, 'scatter', what):
        return
    ctx.check(not out.changed and snapshot(kw) == given, 'data', '%s changes the data' % what)
    with ctx.oracle('scatter'):
        data = np.column_stack([x, y])
        pts = points(ax)
        if flag in ('scatter', 'scatter-line'):
            ctx.check(np.array_equal(pts, data), 'points', '%s: the points are not the data' % what)
            ctx.count('scatter')
        if flag in ('line', 'scatter-line'):
            ctx.check(len(ax.lines) == 1, 'line', '%s: %d lines' % (what, len(ax.lines)))
            check_line(ctx, ax.lines[0], x, y, what)
        if flag in ('scatter', 'combo'):
            ctx.check(len(ax.lines) == 0, 'line', '%s: %d lines' % (what, len(ax.lines)))
        if flag == 'line':
            ctx.check(len(pts) == 0, 'points', '%s: points are shown' % what)
        if flag in ('line', 'scatter', 'scatter-line'):
            want = ('log' if axis in ('log-log', 'semi-logx') else 'linear', 'log' if axis in ('log-log', 'semi-logy') else 'linear')
            ctx.check((ax.get_xscale(), ax.get_yscale()) == want, 'scale', '%s: scales %s' % (what, (ax.get_xscale(), ax.get_yscale())))
            if want == ('linear', 'linear'):
                a, b = ax.get_xlim(), ax.get_ylim()
                ctx.check(a[0] <= x.min() and a[1] >= x.max() and b[0] <= y.min() and b[1] >= y.max(), 'limits', '%s: outside of the axes' % what)
        if flag in ('contour', 'combo'):
            ctx.count('contours')
            d = kw.get('divs', 10)
            ex, ey = edges(x, d), edges(y, d)
            h = np.histogram2d(x, y, bins=(ex, ey))[0]
            lv = np.asarray(kw.get('levels', 10))
            first = 8 if flag == 'combo' else 1
            lv = lv if lv.size > 1 else np.linspace(first, max(h.max(), first + 1), int(lv))
            cs = out.value
            ctx.check(np.allclose(cs.levels, lv), 'levels', '%s: levels %s, expected %s' % (what, cs.levels, lv))
            f2, a2 = plt.subplots()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                ref = a2.contourf(np.linspace(ex[0], ex[-1], d), np.linspace(ey[0], ey[-1], d), h.T, lv)
            plain = not np.any(close_to(x, ex)[(x != x.min()) & (x != x.max())]) and not np.any(close_to(y, ey)[(y != y.min()) & (y != y.max())])
            if plain:
                got, want = [p.vertices for p in cs.get_paths()], [p.vertices for p in ref.get_paths()]
                scale = np.array([np.abs(ex).max(), np.abs(ey).max()])
                ctx.check(len(got) == len(want) and all(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * scale) for a, b in zip(got, want)),
                          'contour', '%s: contours differ from those of the density' % what)
            if flag == 'combo':
                ctx.count('combined')
                rows = {tuple(q) for q in data.tolist()}
                ctx.check(all(tuple(q) in rows for q in pts.tolist()), 'points', '%s: points are shown that are not in the data' % what)
                shown = {tuple(q) for q in pts.tolist()}
                hidden = np.array([tuple(q) not in shown for q in data.tolist()])
                ctx.check(len(pts) == np.count_nonzero(~hidden), 'points', '%s: %d points, expected %d' % (what, len(pts), np.count_nonzero(~hidden)))
                lo, hi = density(h, (ex[0], ex[-1], ey[0], ey[-1]), x, y)
                if plain and h.max() < lv.min():
                    ctx.check(not hidden.any(), 'points', '%s: particles are missing' % what)
                # particles vanish where the density is above the first contour, and only there
                clear = plain_cells(x, ex, d) & plain_cells(y, ey, d)
                if plain:
                    ctx.check(not np.any(hidden & clear & (hi < lv.min())), 'points', '%s: particles outside of the contours are missing' % what)
                    ctx.check(not np.any(~hidden & clear & (lo > lv.min())), 'points', '%s: particles inside of the contours are shown' % what)
                    ctx.count('hidden', int(np.sum(hidden & clear & (lo > lv.min()))))
        else:
            ctx.check(out.value is None, 'returned', '%s returns %r' % (what, out.value))
    plt.close('all')


def gridded(ctx):
    """Contours of a field on a square grid.  The field is symmetric since the order of its axes is not documented."""
    import matplotlib.pyplot as plt
    from rsbeams.rsplot.plot_ptcls import scatter_contour
    rng = ctx.rng
    plt.close('all')
    n = rng.choice([3, 4, 10, 31])
    lo = rng.choice([0.0, -1.0, rng.uniform(-100, 100)])
    axis = np.linspace(lo, lo + 10 ** rng.uniform(-3, 3), n)
    u = (axis - axis[0]) / np.ptp(axis)
    f = rng.choice([lambda a, b: a + b, lambda a, b: a * b + 1, lambda a, b: np.cos(3 * a) * np.cos(3 * b), lambda a, b: -np.hypot(a - .5, b - .5) - 2])
    z = (10 ** rng.uniform(-2, 3) * f(u[:, None], u[None, :])).ravel()
    lv = rng.choice([None, 3, 10, np.linspace(z.min(), z.max(), 7)])
    kw = {} if lv is None else {'levels': lv}
    grid = [axis, axis.copy()]
    fig, ax = plt.subplots()
    ctx.case(('gridded', z.tobytes()), {'grid': n, 'axis': [axis[0], axis[-1]], 'field': z[:5].tolist()})
    out = ctx.call(scatter_contour, 'contour', 'linear', grid, z, ax, frozen=(grid, z), **kw)
    what = 'contours of a field on a grid of %d by %d' % (n, n)
    if not ctx.expect_ok(out, 'gridded', what):
        return
    with ctx.oracle('gridded'):
        ctx.count('gridded')
        want = lv if isinstance(lv, np.ndarray) else np.linspace(z.min(), z.max(), lv or 10)
        ctx.check(np.array_equal(out.value.levels, want), 'levels', '%s: levels %s, expected %s' % (what, out.value.levels, want))
        f2, a2 = plt.subplots()
        ref = a2.contourf(axis, axis, z.reshape(n, n), levels=want)
        got, want = [p.vertices for p in out.value.get_paths()], [p.vertices for p in ref.get_paths()]
        scale = np.abs(axis).max()
        ctx.check(len(got) == len(want) and all(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * scale) for a, b in zip(got, want)),
                  'contour', '%s: contours differ from those of the field' % what)
        ctx.check(out.value in ax.collections and not ax.lines, 'contour', '%s: not in the axes' % what)
    plt.close('all')


def levels(ctx):
    from rsbeams.rsplot.plot_ptcls import gen_contour_levels
    rng = ctx.rng
    field = ctx.np.normal(size=(4, 5)) * 10 ** rng.uniform(0, 4) + rng.choice([0, 100, -100])
    n, m = rng.choice([None, 1, 7, 40]), rng.choice([None, 1.0, 2])
    kw = {k: v for k, v in (('nLevels', n), ('multiplier', m)) if v is not None}
    out = ctx.call(gen_contour_levels, field, frozen=(field,), **kw)
    if ctx.expect_ok(out, 'levels', 'gen_contour_levels'):
        n, m = n or 40, m or 1.1
        # the sign of the larger limit decides: limits are symmetric
        top = m * max(field.max(), abs(field.min()) if abs(m * field.min()) >= m * field.max() else 0)
        want = [-top + 2 * top * i / n for i in range(n)]
        ctx.check(len(out.value) == n and np.allclose(out.value, want, atol=6e-4, rtol=1e-9), 'levels', 'levels %s, expected %s' % (out.value, want))


def scatter6d(ctx):
    import matplotlib.pyplot as plt
    from rsbeams.rsplot.RsScatterPS6D import RsScatterPS6D
    from rsbeams.rsptcls.RsPhaseSpace6D import RsPhaseSpace6D
    rng = ctx.rng
    plt.close('all')
    n = rng.choice([2, 3, 100, 2000])
    ps = RsPhaseSpace6D(n)
    array = np.array(coordinates(ctx, n, 6))
    ps.set_array_6d(array)
    out = ctx.call(RsScatterPS6D, ps, frozen=(array,))
    if not ctx.expect_ok(out, 'scatter6d', 'RsScatterPS6D'):
        return
    s = out.value
    labels = ['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0']
    title = 'no plot title specified'
    before = snapshot(array)
    shown = []
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.random()
        if k < 0.4:
            i, text = rng.randrange(6), rng.choice(['a very long label of the axis [mm]', '', 'x'])
            ctx.expect_ok(ctx.call(s.set_label, i, text), 'label', 'set_label')
            labels[i] = text
        elif k < 0.6:
            title = rng.choice(['t', 'another title'])
            ctx.expect_ok(ctx.call(s.set_title, title), 'title', 'set_title')
        elif k < 0.7:
            array = np.array(coordinates(ctx, n, 6))
            before = snapshot(array)
            ctx.expect_ok(ctx.call(s.set_data6d, array), 'data', 'set_data6d')
        h, v = rng.randrange(6), rng.randrange(6)
        ctx.case((h, v, array.tobytes()), {'h': h, 'v': v, 'particles': n}, nontrivial=n > 2)
        out = ctx.call(s.plot_data6d, h, v)
        if not ctx.expect_ok(out, 'scatter6d', 'plot_data6d(%d, %d)' % (h, v)):
            return
        ctx.count('scatter6d')
        shown.append((plt.gcf(), array[h].copy(), array[v].copy(), labels[h], labels[v], title))
        ctx.check(snapshot(s.get_data6d()) == before, 'data', 'the data are changed')
        ctx.check([s.get_label(i) for i in range(6)] == labels and s.get_title() == title, 'labels', 'labels are %s' % list(s.label))
    with ctx.oracle('scatter6d'):
        ctx.check(len({id(f) for f, *_ in shown}) == len(shown), 'figure', '%d plots in %d figures' % (len(shown), len({id(f) for f, *_ in shown})))
        for fig, x, y, lx, ly, ti in shown:
            ax = fig.axes[0]
            ctx.check(np.array_equal(points(ax), np.column_stack([x, y])), 'points', 'the points are not the data')
            ctx.check((ax.get_xlabel(), ax.get_ylabel(), ax.get_title()) == (lx, ly, ti), 'labels', 'labels %s, expected %s'
                      % ((ax.get_xlabel(), ax.get_ylabel(), ax.get_title()), (lx, ly, ti)))
            for lim, data in ((ax.get_xlim(), x), (ax.get_ylim(), y)):
                m = np.abs(data).max()
                if m:
                    ctx.check(np.allclose(lim, (-m, m), rtol=1e-12), 'limits', 'limits %s, expected %r to %r' % (lim, -m, m))
    if rng.random() < 0.15:
        target = ctx.path('.png')
        out = ctx.call(s.save_plots, target)
        if ctx.expect_ok(out, 'save', 'save_plots'):
            saved(ctx, target, out, 'save_plots')
            ctx.check(not plt.gcf().axes or not points(plt.gcf().axes[0]).size, 'cleared', 'the figure is not cleared after saving')
    plt.close('all')
    if rng.random() < 0.3:
        ctx.check(isinstance(ctx.call(RsScatterPS6D, RsPhaseSpace6D(1)).error, Exception), 'refused', 'a bunch of one particle is accepted')


def run(ctx):
    for i in ctx.cases(75, 1100, seconds=None if ctx.thorough else 300):
        symbols(ctx)
        utilities(ctx)
        beam_plots(ctx)
        if ctx.rng.random() < 0.4:
            beam_plots(ctx, True)
        beamlines(ctx)
        for _ in range(4):
            scatter(ctx)
        gridded(ctx)
        scatter6d(ctx)
        levels(ctx)
