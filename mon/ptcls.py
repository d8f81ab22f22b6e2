"""Particle data for the species checks."""
import numpy as np


def beam(ctx, n=None, momentum='positive'):
    """(n, 6) array (x, ux, y, uy, ct, pt) with hostile scales, offsets, signs and layouts."""
    rng, r = ctx.rng, ctx.np
    n = n or ctx.size([1, 1, 2, 3, 4, 5, 7, 10, 33, 100], 3000, 0.01)
    a = np.empty((n, 6))
    for k in range(6):
        scale = 10.0 ** rng.randint(-12, 4)
        col = r.normal(size=n) * scale + (rng.choice([0, 1, -1]) * scale * 10.0 ** rng.randint(-2, 3))
        how = rng.random()
        if how < 0.08:
            col = np.zeros(n)
        elif how < 0.14:
            col = np.full(n, scale)
        elif how < 0.2:
            col = np.sort(col)[::-1]
        a[:, k] = col
    if rng.random() < 0.2:
        a[rng.randrange(n), rng.randrange(5)] = rng.choice([0.0, -0.0, 1e-300, -1e300 if False else -1e100])
    p = 10.0 ** rng.uniform(-3, 5)
    a[:, 5] = p * (1 + rng.choice([0.3, 0.3, 0.0, 10.0 ** rng.uniform(-15, -1)]) * r.uniform(-1, 1, n))
    if momentum == 'any' and rng.random() < 0.3:
        a[:, 5] *= -1
    if n > 1 and rng.random() < 0.2:
        # particles at the same place
        a[rng.randrange(n)] = a[rng.randrange(n)]
    layout = rng.randrange(4)
    if layout == 1:
        a = np.asfortranarray(a)
    elif layout == 2:
        b = np.zeros((n, 8))
        b[:, 1:7] = a
        a = b[:, 1:7]
    elif layout == 3:
        a = np.repeat(a, 2, axis=0)[::2]
    return a


def describe(a):
    return {'particles': len(a), 'first': a[0].tolist(), 'last': a[-1].tolist()}


def close(got, want, rtol=2e-15, atol=0.0):
    """Elementwise relative comparison that treats NaN and shape as differences."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((got == want) | (np.abs(got - want) <= rtol * np.abs(want) + atol)))


def worst(got, want):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return 'shape %s, expected %s' % (got.shape, want.shape)
    d = np.abs(got - want) / np.where(want == 0, 1, np.abs(want))
    d = np.where(np.isnan(d), np.inf, d)
    i = np.unravel_index(np.argmax(d), d.shape) if d.ndim else ()
    return '%r, expected %r (at %s)' % (float(got[i]), float(want[i]), tuple(map(int, i)))
