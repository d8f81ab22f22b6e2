"""C10: kinematic conversions."""
import math
import os
import re
import subprocess
import sys
import tomllib

import mpmath as mp
import numpy as np

from mon.core import snapshot

MODULES = ['rsbeams.rsstats.kinematic', 'rsbeams.rsphysics.rsconst']
TECHNIQUE = 'reference model: 50 digit arithmetic with a condition-aware error bound; call histories; command line runs'
RULE = ('Each of the eight input quantities, log-uniform over slow to ultrarelativistic particles, with default, eV and SI '
        'mass and all unit combinations, as number, NumPy scalar and array; every output is compared with 50 digit '
        'arithmetic within the rounding error that the conversion through beta and gamma allows; converters are called '
        'repeatedly and interleaved, and the command line is run, in process, as a program and through the installed commands.  Non-trivial: input is not zero; distinct by all inputs.')
ASSUMPTIONS = ['mass conversion between eV and kg is exact to 1e-8 (CODATA rounding)',
               'accuracy is that of a conversion through beta and gamma in double precision']
REQUIRE = {'outputs_compared': 3000, 'array_inputs': 50, 'integer_arrays': 5, 'repeated_calls': 50, 'command_lines': 20, 'programs': 4, 'installed_commands': 2, 'refused': 20}
mp.mp.dps = 50
C = mp.mpf(299792458)
E = mp.mpf('1.602176634e-19')
EPS = mp.mpf(2) ** -52
KINDS = ['momentum', 'velocity', 'energy', 'kenergy', 'betagamma', 'brho', 'beta', 'gamma']
ME_EV = mp.mpf('0.51099895e6')
ME_KG = mp.mpf('9.1093837015e-31')


def exact(kind, value, mass):
    """(beta, gamma, gamma - 1) from the value in eV units; mass in eV."""
    v = value
    if kind == 'velocity':
        v, kind = v / C, 'beta'
    if kind == 'brho':
        v, kind = v * C, 'momentum'
    if kind == 'momentum':
        v, kind = v / mass, 'betagamma'
    if kind == 'kenergy':
        g1 = v / mass
    elif kind == 'energy':
        g1 = v / mass - 1
    elif kind == 'gamma':
        g1 = v - 1
    elif kind == 'beta':
        g = 1 / mp.sqrt(1 - v * v)
        return v, g, v * v * g * g / (g + 1)
    else:
        g = mp.sqrt(1 + v * v)
        return v / g, g, v * v / (g + 1)
    g = 1 + g1
    return mp.sqrt(g1 * (g + 1)) / g, g, g1


def bounds(kind, b, g, g1, mix):
    """Relative error bounds of beta and gamma; mix: error of the input due to conversion of the mass."""
    if kind in ('beta', 'velocity'):
        return 8 * EPS, 8 * EPS * (1 + g * g)
    if kind in ('betagamma', 'momentum', 'brho'):
        u = 12 * EPS + (0 if kind == 'betagamma' else mix)
        return u, u
    ug = 8 * EPS + (0 if kind == 'gamma' else mix * (g1 / g if kind == 'kenergy' else 1))
    if b == 0:
        return mp.inf, ug
    return ug / (g * b) ** 2 + 8 * EPS / b ** 2 + 8 * EPS, ug


def reference(kind, value, units):
    """{output: (value, relative bound)} for one input."""
    mass, mass_unit, input_unit, output_unit = units
    m_out = mass
    mix = mp.mpf(0)
    if mass is None:
        m_ev, mass = ME_EV, None
        mix = mp.mpf('1e-8')
        m_out = ME_EV if mass_unit == 'eV' else ME_KG
    elif mass_unit == 'SI':
        m_ev = mp.mpf(mass) * C ** 2 / E
        mix = mp.mpf('1e-8') if input_unit == 'eV' else mp.mpf(0)
    else:
        m_ev = mp.mpf(mass)
        mix = mp.mpf('1e-8') if input_unit == 'SI' else mp.mpf(0)
    v = mp.mpf(value)
    if input_unit == 'SI':
        v = v * {'momentum': C / E, 'energy': 1 / E, 'kenergy': 1 / E}.get(kind, 1)
    b, g, g1 = exact(kind, v, m_ev)
    ub, ug = bounds(kind, b, g, g1, mix)
    um = mix + 8 * EPS
    out = {'beta': (b, ub), 'gamma': (g, ug), 'velocity': (b * C, ub + 2 * EPS), 'betagamma': (b * g, ub + ug + 2 * EPS)}
    p_f, e_f = (E / C, E) if output_unit == 'SI' else (1, 1)
    out['momentum'] = (b * g * m_ev * p_f, ub + ug + um)
    out['energy'] = (g * m_ev * e_f, ug + um)
    out['kenergy'] = (g1 * m_ev * e_f, (ug * g / g1 if g1 else mp.inf) + um + 8 * EPS)
    out['brho'] = (b * g * m_ev / C, ub + ug + um)
    return out, m_out, {'beta': mp.sqrt(4 * (ug + EPS)), 'gamma': g * ug}


def compare(ctx, res, i, kind, value, units, scalar):
    ref, m_out, absolute = reference(kind, value, units)
    pick = (lambda q: q) if scalar else (lambda q: np.asarray(q).reshape(-1)[i])
    for name, (want, rel) in ref.items():
        got = mp.mpf(float(pick(res[name])))
        if want == 0 or rel > mp.mpf('0.3'):
            # resting particle: only an absolute statement is possible
            scale = {'beta': 1, 'velocity': C, 'betagamma': 1, 'momentum': ref['energy'][0], 'brho': ref['energy'][0],
                     'kenergy': ref['energy'][0], 'energy': ref['energy'][0], 'gamma': 1}[name]
            if name == 'momentum' and units[3] == 'SI':
                scale = scale / C
            if name == 'brho':
                scale = scale / (C if units[3] == 'eV' else C * E)
            tol = scale * (absolute['beta'] if name not in ('kenergy', 'gamma', 'energy') else absolute['gamma'] + 16 * EPS)
            ctx.count('absolute_only')
        else:
            tol = rel * abs(want)
        ctx.count('outputs_compared')
        ctx.check(mp.isfinite(got) and abs(got - want) <= tol, 'value-' + name,
                  lambda: '%s from %s=%r (mass %r, mass_unit %s, input_unit %s, output_unit %s) is %s, expected %s (bound %s)'
                  % ((name, kind, value) + units + (mp.nstr(got, 17), mp.nstr(want, 17), mp.nstr(tol, 3))))
    return m_out


EARLIER = []
FREE = ('beta', 'gamma', 'betagamma', 'velocity')  # do not depend on mass and units


def draw(ctx):
    rng = ctx.rng
    units = (None, rng.choice(['eV', 'SI']), rng.choice(['eV', 'SI']), rng.choice(['eV', 'SI']))
    k = rng.random()
    if k < 0.7:
        m = 10 ** rng.uniform(3, 12) if k < 0.4 else rng.choice([0.51099895e6, 938.27208816e6, 1.0, 105.6583755e6])
        if units[1] == 'SI':
            m = float(mp.mpf(m) * E / C ** 2)
        units = (m,) + units[1:]
    kind = rng.choice(KINDS)
    return kind, units


def value(ctx, kind, units):
    """An input for which the conversion is defined."""
    rng = ctx.rng
    mass, mu, iu, _ = units
    m_ev = ME_EV if mass is None else mp.mpf(mass) * (C ** 2 / E if mu == 'SI' else 1)
    bg = mp.mpf(10) ** rng.uniform(-6, 9)
    k = rng.random()
    if k < 0.15:
        bg = mp.mpf(rng.choice([1, 10, 1000, mp.mpf('0.1'), 10 ** 6]))
    if kind in ('beta', 'velocity'):
        bg = min(bg, mp.mpf(10) ** 6)
    g = mp.sqrt(1 + bg * bg)
    v = {'momentum': bg * m_ev, 'velocity': bg / g * C, 'energy': g * m_ev, 'kenergy': bg * bg / (g + 1) * m_ev,
         'betagamma': bg, 'brho': bg * m_ev / C, 'beta': bg / g, 'gamma': g}[kind]
    if kind in ('energy', 'gamma') and g - 1 < mp.mpf('1e-6'):
        v = v * mp.mpf('1.001')
    if k > 0.97 and kind not in ('energy', 'gamma'):
        v = mp.mpf(0)
    elif k > 0.97 and kind == 'gamma':
        v = mp.mpf(1)
    if iu == 'SI':
        v = v / {'momentum': C / E, 'energy': 1 / E, 'kenergy': 1 / E}.get(kind, 1)
    return float(v)


def keywords(kind, v, units):
    kw = {kind: v}
    for k, u in zip(('mass', 'mass_unit', 'input_unit', 'output_unit'), units):
        if u is not None:
            kw[k] = u
    return kw


def labels(ctx, res, kind, units):
    p = 'eV/c' if units[3] == 'eV' else 'kg*m/s'
    e = 'eV' if units[3] == 'eV' else 'J'
    m = 'eV/c^2' if units[1] == 'eV' else 'kg'
    i = {'momentum': 'eV/c' if units[2] == 'eV' else 'kg*m/s', 'velocity': 'm/s'}.get(
        kind, ('eV' if units[2] == 'eV' else 'J') if 'energy' in kind else '')
    got = tuple(str(res[k]).replace(' ', '') for k in ('p_unit', 'e_unit', 'mass_unit', 'input_unit'))
    if kind in ('brho',):
        i = got[3]
    ctx.check(got == (p, e, m, i), 'labels', 'units are labelled %s, expected %s' % (got, (p, e, m, i)))
    ctx.check(res['input_type'] == kind, 'labels', 'input_type is %r' % (res['input_type'],))


def one(ctx):
    from rsbeams.rsstats.kinematic import Converter
    rng = ctx.rng
    kind, units = draw(ctx)
    scalar = rng.random() < 0.7
    same = EARLIER.pop() if EARLIER and rng.random() < 0.5 else None
    if same:
        # The same input as before, for another mass or other units
        kind, value0, old = same
        ctx.count('same_value_other_mass')
        while units == old or not (units[1:] == old[1:] or kind in FREE):
            units = (draw(ctx)[1][0],) + old[1:] if kind not in FREE else draw(ctx)[1]
        scalar = True
        vals = [value0]
        v = value0
    elif scalar:
        vals = [value(ctx, kind, units)]
        if kind in FREE or vals[0] and kind == 'brho':
            EARLIER.append((kind, vals[0], units))
        v = rng.choice([vals[0], np.float64(vals[0])])
        if kind not in ('beta', 'velocity') and vals[0] >= 1 and rng.random() < 0.2:
            v = vals[0] = math.ceil(vals[0]) * rng.choice([1, 1, 10 ** 12] if kind in ('gamma', 'betagamma') else [1])
            ctx.count('integers')
    else:
        vals = [value(ctx, kind, units) for _ in range(rng.choice([1, 2, 7, 50]))]
        v = np.array(vals)
        if kind not in ('beta', 'velocity') and min(vals) >= 1 and max(vals) < 2 ** 31 - 1 and rng.random() < 0.6:
            v = np.ceil(v).astype(rng.choice([np.int32, np.int64]))
            vals = [int(q) for q in v]
            ctx.count('integer_arrays')
        if len(vals) > 1 and rng.random() < 0.2:
            v = v[::-1].copy()[::-1] if rng.random() < 0.3 else v.reshape(rng.choice([(1, -1), (-1, 1)] + [(10, 5), (5, 2, 5)] * (len(vals) == 50)))
            ctx.count('arrays_of_other_layout')
        ctx.count('array_inputs')
    ctx.case((kind, units, tuple(vals)), {'input': kind, 'values': vals[:5], 'mass': units[0], 'mass_unit': units[1],
                                          'input_unit': units[2], 'output_unit': units[3]}, nontrivial=any(vals))
    if not scalar:
        given = v.copy()
    out = ctx.call(Converter, **keywords(kind, v, units))
    if not ctx.expect_ok(out, 'create', 'Converter'):
        return None
    conv = out.value
    first = None
    for call in range(rng.choice([1, 1, 2, 3])):
        silent = rng.random() < 0.8
        out = ctx.call(conv, **({'silent': True} if silent else {}))
        if not ctx.expect_ok(out, 'call', 'Converter()(%s)' % kind):
            return None
        res = out.value
        with ctx.oracle('result'):
            if not scalar:
                ctx.check(np.array_equal(v, given), 'input-mutated', 'the input array is changed')
            ctx.check(bool(out.stdout) != silent, 'print', 'silent=%s prints %r' % (silent, out.stdout[:80]))
            ctx.check(np.array_equal(np.asarray(res['input']), np.asarray(v)), 'input', 'input is reported as %r, given %r' % (res['input'], v))
            for i, x in enumerate(vals):
                m_out = compare(ctx, res, i, kind, x, units, scalar)
            if units[0] is not None:
                ctx.check(res['mass'] == units[0], 'mass', 'mass is reported as %r, given %r' % (res['mass'], units[0]))
            else:
                ctx.check(abs(float(res['mass']) / float(m_out) - 1) < 1e-6, 'mass', 'default mass is %r' % (res['mass'],))
            labels(ctx, res, kind, units)
            snap = snapshot({k: np.array(q) if not isinstance(q, str) else q for k, q in res.items() if not callable(q)})
            if first is not None:
                ctx.count('repeated_calls')
                ctx.check(snap == first, 'repeat', 'calling the converter again gives another result')
            first = snap
    return conv, first


def interleaved(ctx):
    """Several converters do not influence each other."""
    held = [h for h in (one(ctx) for _ in range(4)) if h]
    ctx.rng.shuffle(held)
    for conv, first in held:
        out = ctx.call(conv, silent=True)
        ctx.count('interleaved')
        if ctx.expect_ok(out, 'call', 'calling a converter later'):
            snap = snapshot({k: np.array(q) if not isinstance(q, str) else q for k, q in out.value.items() if not callable(q)})
            ctx.check(snap == first, 'interleaved', 'result depends on the use of other converters')


FLAGS = {'momentum': ('-p', '--momentum'), 'velocity': ('-v', '--velocity'), 'energy': ('-E', '--energy'),
         'kenergy': ('-KE', '--kenergy'), 'betagamma': ('-bg', '--betagamma'), 'brho': ('-r', '--brho'),
         'beta': ('-b', '--beta'), 'gamma': ('-g', '--gamma')}
LINES = {'velocity': 'velocity', 'beta': 'beta', 'gamma': 'gamma', 'momentum': 'momentum', 'beta * gamma': 'betagamma',
         'energy': 'energy', 'kinetic energy': 'kenergy', 'Brho': 'brho'}


def command_line(ctx):
    from rsbeams.rsstats import kinematic
    rng = ctx.rng
    kind, units = draw(ctx)
    v = value(ctx, kind, units)
    argv = ['kinematic', rng.choice(FLAGS[kind]), repr(v)]
    if units[0] is not None:
        argv += [rng.choice(['-m', '--mass']), repr(units[0])]
    for flag, u in zip(('--mass_unit', '--unit', '--output_unit'), units[1:]):
        if u != 'eV' or rng.random() < 0.5:
            argv += [flag, u]
    ctx.case(tuple(argv), {'command line': argv})
    old, sys.argv = sys.argv, argv
    try:
        out = ctx.call(kinematic.main)
    finally:
        sys.argv = old
    if not ctx.expect_ok(out, 'command-line', 'command line %s' % argv):
        return
    ctx.count('command_lines')
    with ctx.oracle('command-line'):
        compare(ctx, printed(out.stdout), 0, kind, v, units, True)


def program(ctx):
    """The module run as a program, and the installed commands."""
    from mon.core import REPO
    rng = ctx.rng
    kind, units = draw(ctx)
    v = value(ctx, kind, units)
    argv = [rng.choice(FLAGS[kind]), repr(v)] + (['--mass', repr(units[0])] if units[0] is not None else [])
    for flag, u in zip(('--mass_unit', '--unit', '--output_unit'), units[1:]):
        argv += [flag, u]
    for how in (['-m', 'rsbeams.rsstats.kinematic'], [os.path.join(REPO, 'rsbeams', 'rsstats', 'kinematic.py')]):
        ctx.case(('program', *how, *argv), {'command': how + argv})
        p = subprocess.run([sys.executable, '-B', '-W', 'ignore'] + how + argv, cwd=ctx.scratch, env=dict(os.environ, PYTHONPATH=REPO),
                           capture_output=True, text=True, stdin=subprocess.DEVNULL, timeout=120)
        ctx.count('programs')
        if ctx.check(p.returncode == 0, 'program', '%s ends with %d: %s' % (how + argv, p.returncode, p.stderr[-300:])):
            with ctx.oracle('program'):
                compare(ctx, printed(p.stdout), 0, kind, v, units, True)
    for argv in ([], ['-g', '2', '-b', '0.5'], ['-g', 'two'], ['-g', '2', '--unit', 'CGS']):
        p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-m', 'rsbeams.rsstats.kinematic'] + argv, cwd=ctx.scratch,
                           env=dict(os.environ, PYTHONPATH=REPO), capture_output=True, text=True, stdin=subprocess.DEVNULL, timeout=120)
        ctx.check(p.returncode == 2 and 'usage:' in p.stdout + p.stderr, 'program-usage',
                  'arguments %s: exit status %d and %r, expected 2 and how to use it' % (argv, p.returncode, p.stderr[-200:]))


def scripts(ctx):
    from mon.core import REPO
    import importlib
    with open(os.path.join(REPO, 'pyproject.toml'), 'rb') as f:
        named = tomllib.load(f).get('project', {}).get('scripts', {})
    for name, target in sorted(named.items()):
        ctx.case(('script', name), {'installed command': name, 'entry point': target})
        module, _, function = target.partition(':')
        try:
            found = callable(getattr(importlib.import_module(module), function))
        except (ImportError, AttributeError):
            found = False
        ctx.check(found, 'command-' + name + '-' + target, 'installed command %s fails: there is no %s' % (name, target))
        ctx.count('installed_commands')


def printed(text):
    res = {}
    for line in text.split('\n'):
        m = re.match(r'\s*([A-Za-z*\s]+):\s*(\S+)\s*(.*)', line)
        if m and m.group(1).strip() in LINES:
            res[LINES[m.group(1).strip()]] = float(m.group(2))
    return res


def refused(ctx):
    from rsbeams.rsstats.kinematic import Converter
    rng = ctx.rng
    a, b = rng.sample(KINDS, 2)
    for kw in ({}, {a: 0.5, b: 0.5}, {a: 2.0, b: 0.0}, {a: 1.5, 'input_unit': 'CGS'}, {a: 1.5, 'output_unit': 'MeV'},
               {a: 1.5, 'mass_unit': 'kg'}, {'mass': 1e6}):
        ctx.case(('refused', tuple(sorted(kw.items()))), {'arguments': kw})
        out = ctx.call(Converter, **kw)
        ctx.count('refused')
        ctx.check(isinstance(out.error, Exception), 'accepted', 'Converter(%s) is accepted' % kw)


def constants(ctx):
    from rsbeams.rsphysics import rsconst as r
    c, e = 299792458.0, 1.602176634e-19
    want = {'c': (c, 0), 'e': (e, 0), 'c_CGS': (c * 100, 1e-15), 'c_INV': (1 / c, 1e-15), 'c_SQ': (c * c, 1e-15),
            'C_to_STATC': (2997924580.0, 1e-15), 'm_e': (9.1093837e-31, 1e-7), 'm_p': (1.67262192e-27, 1e-7),
            'm_e_CGS': (9.1093837e-28, 1e-7), 'm_p_CGS': (1.67262192e-24, 1e-7), 'm_e_EV': (0.51099895e6, 1e-7),
            'm_p_EV': (938.272088e6, 1e-7), 'KG_to_EV': (c * c / e, 1e-14), 'mu_0': (1.25663706e-6, 1e-8),
            'epsilon_0': (8.8541878e-12, 1e-7), 'MKS_factor': (8.98755179e9, 1e-7), 'e_CGS': (4.80320471e-10, 1e-8),
            'EV_to_ERG': (1.602176634e-12, 2e-4), 'RT_2': (2 ** 0.5, 1e-15), 'TWO_PI': (2 * np.pi, 1e-15),
            'RT_TWO_PI': (np.sqrt(2 * np.pi), 1e-15), 'RT_2_OVER_PI': (np.sqrt(2 / np.pi), 1e-15), 'pi': (np.pi, 0)}
    for k, (v, tol) in want.items():
        ctx.case(('constant', k), {'constant': k})
        with ctx.oracle('constants'):
            got = getattr(r, k)
            ctx.check(abs(got / v - 1) <= tol, 'constants', 'constant %s is %r, expected %r' % (k, got, v))


def run(ctx):
    constants(ctx)
    scripts(ctx)
    for i in ctx.cases(2, 20):
        program(ctx)
    for i in ctx.cases(350, 6000):
        one(ctx)
    for i in ctx.cases(20, 200):
        interleaved(ctx)
    for i in ctx.cases(40, 400):
        command_line(ctx)
    for i in ctx.cases(5, 20):
        refused(ctx)
