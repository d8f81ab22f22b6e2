"""C17: reproducible and quiet bunches."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from mon import core
from mon.bunches import normalised

MODULES = ['rsbeams.rsptcls.bunch']
TECHNIQUE = 'replay monitor: every seeded history is executed alone, interleaved with others, and in another process, and compared bit by bit'
RULE = ('Random bunch recipes (class, distribution, parameters, seed, quiet) with a history of generations, executed several times: in a row, '
        'interleaved with other bunches and with use and reseeding of the global random generators, and in another process with other hash '
        'seed.  Quiet bunches have their groups of four examined.  Non-trivial: the bunch has random particles; distinct by recipe.')
REQUIRE = {'replays': 100, 'interleaved': 50, 'other_process': 20, 'quiet_groups': 60, 'different_seeds': 40}


def recipe(ctx):
    rng = ctx.rng
    kind = rng.choice(['StandardBunch', 'NonlinearBunch'])
    dist = rng.choice(['KV', 'Gaussian'] if kind == 'StandardBunch' else ['KV', 'Gaussian', 'waterbag'])
    quiet = rng.random() < 0.4
    n = ctx.size([4, 8, 40, 120] if quiet else [1, 2, 5, 10, 50, 101], 2400, 0.01)
    b = 10 ** rng.uniform(-2, 2)
    kw = {'npart': n, 'dist': dist, 'quiet': quiet, 'seed': rng.choice([0, 1, rng.randrange(10 ** 9), 2 ** 40 + rng.randrange(99), 0.5, rng.random()]),
          'betax': b, 'alphax': rng.choice([0.0, rng.uniform(-4, 4)]), 'alphay': rng.choice([0.0, rng.uniform(-4, 4)]),
          'betay': b if kind == 'NonlinearBunch' else 10 ** rng.uniform(-2, 2), 'stdz': rng.choice([1.0, 1e-3]), 'dpop': rng.choice([0, 1e-3])}
    kw['emitx'] = kw['emity'] = 10 ** rng.uniform(-8, -4)
    if kind == 'NonlinearBunch':
        kw['t'], kw['c'] = rng.choice([0, 0.1, 0.4]), np.sqrt(kw['emitx']) * rng.choice([1.0, 3.0])
    ops = [rng.choice('tl') for _ in range(rng.choice([1, 2, 4]))]
    return {'kind': kind, 'kw': kw, 'ops': ops}


def play(rec, disturb=None, seed='given'):
    """Yields after each operation; returns nothing.  The last yield holds the list of particle arrays."""
    from rsbeams.rsptcls import bunch
    kw = dict(rec['kw'])
    if seed != 'given':
        kw['seed'] = seed
    b = getattr(bunch, rec['kind'])(**kw)
    got = []
    for op in rec['ops']:
        if disturb:
            disturb()
        if op == 't':
            b.set_transverse_coordinates()
        else:
            b.set_longitudinal_coordinates()
        got.append(b.particles.copy())
        yield b, got


def full(rec, disturb=None, seed='given'):
    for b, got in play(rec, disturb, seed):
        pass
    return b, got


def digest(got):
    return hashlib.sha256(b''.join(g.tobytes() for g in got)).hexdigest()


def disturbance(ctx):
    from rsbeams.rsptcls import bunch

    def d():
        k = ctx.rng.randrange(6)
        if k == 0:
            random.seed(ctx.rng.randrange(100))
        elif k == 1:
            np.random.seed(ctx.rng.randrange(100))
        elif k == 2:
            random.random(), np.random.rand(3), np.random.randn()
        elif k == 3:
            bunch.StandardBunch(10, seed=ctx.rng.choice([None, 1])).set_transverse_coordinates()
        elif k == 4:
            bunch.StandardBunch(5, 'KV').set_transverse_coordinates()
        else:
            bunch.NonlinearBunch(4, seed=3, t=0.0, c=2e-3).set_transverse_coordinates()
    return d


CHILD = '''
import sys, json
sys.dont_write_bytecode = True
sys.path[:0] = [%r, %r]
from checks import c17
recs = json.load(sys.stdin)
import random, numpy
random.random(); numpy.random.rand()
print(json.dumps([c17.digest(c17.full(r)[1]) for r in recs]))
''' % (core.REPO, core.VERIF)


def quiet(ctx, rec, b):
    kw = rec['kw']
    p = b.particles
    x = np.array(normalised(p, kw['betax'], kw['alphax'], kw['betay'], kw['alphay'])).T
    scale = np.max(np.abs(x), axis=1).reshape(-1, 4).max(axis=1)[:, None, None] * (1 + kw['alphax'] ** 2 + kw['alphay'] ** 2)
    g = x.reshape(-1, 4, 4)
    ctx.count('quiet_groups', len(g))
    ctx.check(np.all(np.abs(g.sum(axis=1)) <= 1e-13 * scale[:, 0]), 'quiet', 'transverse coordinates of a quiet group do not cancel: %s' % rec)
    ref = np.abs(g[:, :1])
    ctx.check(np.all(np.abs(np.abs(g) - ref) <= 1e-13 * scale), 'quiet', 'particles of a quiet group are not mirror images: %s' % rec)
    signs = np.sign(g) * np.sign(g[:, :1])
    for j in ((0, 1), (2, 3)):
        pairs = {tuple(s) for s in signs[:, :, j].reshape(-1, 2)}
        ctx.check(pairs <= {(1, 1), (-1, -1), (1, -1), (-1, 1)} and all(len({tuple(q) for q in s}) == 4 for s in signs[:, :, j]), 'quiet',
                  'groups do not have all four mirror images: %s' % rec)
    raw = np.abs(p[:, :4]).max(axis=0) * (1 + abs(kw['alphax']) + abs(kw['alphay']))
    ctx.check(np.all(np.abs(p[:, :4].mean(axis=0)) <= 1e-13 * raw + 1e-300), 'quiet', 'transverse averages are %s: %s' % (p[:, :4].mean(axis=0), rec))


def case(ctx, recs, digests):
    rec = recipe(ctx)
    want = ctx.call(full, rec)
    if not ctx.expect_ok(want, 'generate', 'generation of %s' % rec):
        return
    b, base = want.value
    random_ = bool(np.any(b.particles[:, :4])) or ('l' in rec['ops'])
    ctx.case(repr(rec), rec, nontrivial=random_)
    ctx.count('replays')
    again = ctx.call(full, rec, disturbance(ctx) if ctx.rng.random() < 0.7 else None)
    if ctx.expect_ok(again, 'generate', 'second generation of %s' % rec):
        ctx.check(digest(again.value[1]) == digest(base), 'reproducible', 'second generation differs for %s' % rec)
        ctx.check(digest(base[-1:]) == digest([b.particles]), 'shared', 'generating a bunch changes another: %s' % rec)
    # interleaved with another recipe
    other = recipe(ctx) if ctx.rng.random() < 0.7 else rec
    alone = digest(full(other)[1])
    a, o = play(rec), play(other)
    last = {}
    live = [('a', a), ('o', o)]
    while live:
        i = ctx.rng.randrange(len(live))
        try:
            last[live[i][0]] = next(live[i][1])[1]
        except StopIteration:
            live.pop(i)
    ctx.count('interleaved')
    ctx.check(digest(last['a']) == digest(base) and digest(last['o']) == alone, 'interleaved', 'interleaved generation differs for %s and %s' % (rec, other))
    # other seeds
    if random_ and rec['kw']['npart'] > 1 and ('t' in rec['ops']):
        ctx.count('different_seeds')
        seed = ctx.rng.choice([rec['kw']['seed'] + 1, rec['kw']['seed'] + 2 ** 33, rec['kw']['seed'] + 0.25, 12345.678, None])
        diff = ctx.call(full, rec, None, seed)
        if ctx.expect_ok(diff, 'generate', 'other seed of %s' % rec):
            for g, h, op in zip(diff.value[1], base, rec['ops']):
                cols = slice(0, 4) if op == 't' else slice(4, 5)
                ctx.check(not np.any((g[:, cols] == h[:, cols]) & (h[:, cols] != 0)), 'seed', 'seeds %r and %r share coordinates for %s'
                          % (rec['kw']['seed'], seed, rec))
        if seed is not None:
            continued = [g.tobytes() for g, op in zip(base, rec['ops']) if op == 't']
            ctx.check(len(set(continued)) == len(continued), 'stream', 'a further generation repeats the particles: %s' % rec)
    if rec['kw']['quiet'] and 't' in rec['ops'] and (rec['kind'], rec['kw']['dist']) != ('StandardBunch', 'Gaussian'):
        with ctx.oracle('quiet'):
            quiet(ctx, rec, b)
    if len(recs) < (400 if ctx.thorough else 40):
        recs.append(rec)
        digests.append(digest(base))


def run(ctx):
    recs, digests = [], []
    for i in ctx.cases(120, 1500):
        case(ctx, recs, digests)
    for hashseed in ('1', '%d' % ctx.rng.randrange(2, 2 ** 32)):
        env = dict(os.environ, PYTHONHASHSEED=hashseed)
        out = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD], input=json.dumps(recs), capture_output=True, text=True, timeout=400, env=env)
        if out.returncode:
            ctx.fail('generate', 'generation in another process fails: %s' % out.stderr[-500:])
            return
        for rec, a, b in zip(recs, digests, json.loads(out.stdout)):
            ctx.count('other_process')
            ctx.check(a == b, 'process', 'another process generates other particles for %s' % rec)
