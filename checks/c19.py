"""C19: phase advance and tune."""
import math

import numpy as np

MODULES = ['rsbeams.rsptcls.phases']
TECHNIQUE = 'reference monitor: outputs on synthetic motion of known phase and tune, with poisoned data outside of the interval to be used'
RULE = ('Random pairs of phase-space points (all quadrants, axes, scales 1e-150..1e150) with known angle, products of several advances, and '
        'turn-by-turn signals of tune 0..0.5 with random amplitude, phase, length and interval; samples outside of the interval are NaN.  '
        'Non-trivial: nonzero angle or tune; distinct by points or signal.')
REQUIRE = {'angles': 1500, 'counterclockwise': 400, 'tunes': 300, 'exact_tunes': 100, 'intervals': 100, 'one_turn_maps': 100}
AXES = [0.0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4]


def point(r, a):
    exact = {0.0: (1, 0), math.pi / 2: (0, 1), math.pi: (-1, 0), -math.pi / 2: (0, -1), math.pi / 4: (1, 1)}
    if a in exact:
        return [r * exact[a][0], r * exact[a][1]]
    return [r * math.cos(a), r * math.sin(a)]


def angles(ctx):
    from rsbeams.rsptcls.phases import phase_advance
    rng = ctx.rng
    for _ in range(20):
        a1 = rng.choice([rng.uniform(-math.pi, math.pi)] * 3 + AXES)
        a2 = rng.choice([rng.uniform(-math.pi, math.pi)] * 3 + AXES + [a1, a1 + math.pi, a1 + 1e-9, a1 - 1e-9])
        r1, r2 = 10 ** rng.uniform(-150, 150), rng.choice([1.0, 10 ** rng.uniform(-150, 150)])
        kind = rng.choice([list, tuple, np.array])
        p1 = point(r1, a1)
        p2 = point(r2, a2)
        if rng.random() < 0.2:
            # exactly opposite, equal or on the same line
            f = rng.choice([-1.0, 1.0, -0.5, 2.0, -4.0])
            p2, a2 = [f * v for v in p1], a1 if f > 0 else a1 + math.pi
            ctx.count('aligned')
        p1, p2 = kind(p1), kind(p2)
        cw = rng.choice([True, False, None])
        kw = {} if cw is None else {'clockwise': cw}
        out = ctx.call(phase_advance, p1, p2, frozen=(p1, p2), **kw)
        what = 'phase_advance(%r, %r, %s)' % (list(p1), list(p2), kw)
        if not ctx.expect_ok(out, 'advance', what):
            return
        want = (a1 - a2) if cw in (True, None) else (a2 - a1)
        ctx.count('angles')
        ctx.count('counterclockwise', int(cw is False))
        ctx.case((a1, a2, r1, cw), {'from': list(p1), 'to': list(p2), 'clockwise': cw}, nontrivial=a1 != a2)
        with ctx.oracle('advance'):
            got = float(out.value)
            d = abs((got - want + math.pi) % (2 * math.pi) - math.pi)
            ctx.check(d <= 4e-15, 'advance', '%s is %r, expected %r' % (what, got, want % (2 * math.pi)))
            ctx.check(0 <= got <= 2 * math.pi, 'advance-range', '%s is %r, outside of [0, 2 pi]' % (what, got))


def one_turn(ctx):
    """Linear motion at tune Q in normalised coordinates advances clockwise by 2 pi Q, and advances add up."""
    from rsbeams.rsptcls.phases import phase_advance
    rng = ctx.rng
    q = rng.uniform(0.001, 0.999)
    c, s = math.cos(2 * math.pi * q), math.sin(2 * math.pi * q)
    p = ctx.np.normal(size=2) * 10 ** rng.uniform(-6, 3)
    total = 0.0
    turns = rng.choice([1, 5, 20])
    for _ in range(turns):
        n = np.array([c * p[0] + s * p[1], -s * p[0] + c * p[1]])
        out = ctx.call(phase_advance, p, n, frozen=(p, n))
        back = ctx.call(phase_advance, p, n, clockwise=False)
        if not (ctx.expect_ok(out, 'advance', 'phase_advance') and ctx.expect_ok(back, 'advance', 'phase_advance')):
            return
        total += out.value
        ctx.check(abs(out.value + back.value - 2 * math.pi) < 1e-13, 'advance-direction', 'clockwise and counterclockwise advance do not add up')
        p = n
    ctx.count('one_turn_maps')
    ctx.case(('turns', q, turns), {'tune': q, 'turns': turns})
    ctx.check(abs(total / (2 * math.pi) - q * turns) < 1e-10, 'advance', 'advance of %d turns at tune %r is %r turns' % (turns, q, total / 2 / math.pi))


def tune(ctx):
    from rsbeams.rsptcls.phases import tune_fft
    rng = ctx.rng
    num = ctx.size([8, 16, 31, 32, 100, 127, 500, 1024, 1501], 12007, 0.02)
    before, after = rng.choice([(1, 0), (1, 0), (0, 0), (rng.randrange(0, 50), rng.randrange(0, 50))])
    exact = rng.random() < 0.5
    if exact:
        k = rng.choice([1, num // 2 - 1, rng.randrange(1, (num + 1) // 2)]) if num > 2 else 1
        q = k / num
    else:
        q = rng.choice([rng.uniform(1.5 / num, 0.5), rng.uniform(1.5 / num, 0.5), rng.uniform(0.4, 0.4999)])
    if num % 2 == 0 and rng.random() < 0.05:
        q, exact = 0.5, True
    amp, ph = 10 ** rng.uniform(-9, 6), rng.uniform(0, 2 * math.pi)
    if q == 0.5:
        ph = 0.0
    signal = amp * np.cos(2 * math.pi * q * np.arange(num) + ph)
    noise = 0.0
    if not exact and rng.random() < 0.4:
        noise = 0.02
        signal = signal + amp * noise * ctx.np.uniform(-1, 1, num)
    x = np.concatenate([np.full(before, np.nan), signal, np.full(after, np.nan)])
    kw = {}
    if before != 1 or rng.random() < 0.5:
        kw['t_i'] = before
    if after or rng.random() < 0.3:
        # the interval is a slice: it may be given from the end, or reach beyond it
        kw['t_f'] = rng.choice([before + num, -after if after else len(x), before + num if after else len(x) + rng.randrange(1, 99)])
    shape = rng.randrange(4)
    if shape == 1:
        x = x.reshape(-1, 1)
    elif shape == 2:
        x = np.repeat(x, 2)[::2]
    elif shape == 3:
        x = x.tolist()
    what = 'tune_fft of %d samples at tune %r, %s' % (num, q, kw)
    ctx.case((num, q, before, after, amp), {'samples': num, 'tune': q, 'interval': kw, 'amplitude': amp, 'phase': ph})
    ctx.count('intervals', int(bool(kw)))
    out = ctx.call(tune_fft, x, frozen=(x,), **kw)
    if not ctx.expect_ok(out, 'tune', what):
        return
    with ctx.oracle('tune'):
        got = float(out.value)
        ctx.check(0 <= got <= 0.5, 'tune-range', '%s is %r' % (what, got))
        if exact:
            ctx.count('exact_tunes')
            ctx.check(abs(got - q) <= 1e-12, 'tune', '%s is %r' % (what, got))
        else:
            ctx.count('tunes')
            ctx.check(abs(got - q) <= 1.0 / num, 'tune', '%s is %r, off by more than the resolution %r' % (what, got, 1 / num))


def run(ctx):
    for i in ctx.cases(120, 2500):
        angles(ctx)
    for i in ctx.cases(150, 2500):
        one_turn(ctx)
    for i in ctx.cases(900, 15000):
        tune(ctx)
