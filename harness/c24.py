import colorsys
import itertools
import math
import re
from fractions import Fraction

import numpy as np

import c19
import lib
import oracle as o
from c23 import bessel2, lor, voigt
from engine import Skip
from lib import Fs, Ms, Spec, fk, mk

ID = 'C24'
RULE = ('Each case builds an atom with random transitions, draws a spectrum of some of them with a random line shape, '
        'unit, colouring, overrides and labels on a fresh figure, reads the curves back from the axes, matches them one to '
        'one with the lines that ought to be there and compares positions, heights, labels, colours, the axis label and the total; a twin atom '
        'that was never plotted shows whether plotting altered anything; then edits move the lines and it is drawn again.')
ASSUMPTIONS = ['Line shapes are passed as instances (the declared default is a class and cannot be used).',
               'Between the windows of the lines the total may hold anything between the lines sampled there and those '
               'plus the values at the ends of the other windows.',
               'Edits keep the order in energy of levels that are joined.']
UNIT = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12}


MAPS = ['tab20', 'viridis', 'Set2', 'Dark2', 'Pastel2']


class Shape:
    """a line shape of the library and its profile (relative to the peak amplitude), widths in the plotting unit"""

    def __init__(self, rng, scale, plain=False):
        from atomtoolkit.render import lineshapes as ls
        k = rng.choice(['L', 'L', 'G', 'M'])
        self.w = g = scale * lib.logu(rng, 1e-3, 1e3)
        self.floor = None
        if k == 'L':
            self.shape = ls.LorentzianLineShape(g)
            self.f = lambda d, f: lor(d, g)
        elif k == 'G':
            self.shape = ls.GaussianLineShape(g)
            self.f = lambda d, f: np.exp(-(d / g) ** 2 / 2)
        else:
            depth, fm, n = rng.uniform(0, 3), g * lib.logu(rng, .5, 30), rng.randint(0, 6)
            self.shape = ls.ModLorentzianLineShape(g, depth, fm, n)
            self.f = lambda d, f: sum(bessel2(abs(i), depth) * lor(d - i * fm, g) for i in range(-n, n + 1))
        self.name = f'{k} {g:.3g}'
        self.kind = k


def build(rng, m, I=(0, 1, 2, 3, 5), Jmax=4, n=(2, 4), B=0.8):
    spec = Spec(rng, nlev=n, I=list(I), Jmax=Jmax, B=B, hf=0.8, aliases=0,
                energies=lambda r, i: (i + 1) * 1.5e14 + r.uniform(0, 5e13))
    rng.shuffle(spec.levels)
    for l in spec.levels:
        for k in ('A', 'Bq', 'C'):
            l[k] = max(-1e9, min(1e9, l[k]))
    spec.B = max(-1e3, min(1e3, spec.B))
    pairs = [(i, j) for i, j in itertools.combinations(range(len(spec.levels)), 2)
             if any(lib.pair_kinds(spec.levels[i], spec.levels[j]))]
    if not pairs:
        raise Skip()
    pairs = rng.sample(pairs, rng.randint(1, min(3, len(pairs))))
    pairs = [p if rng.random() < .5 else p[::-1] for p in pairs]
    As = [rng.choice([None, lib.logu(rng, 1, 1e8)]) for _ in pairs]
    m.op('spec', spec.I, spec.B, [l['name'] for l in spec.levels], pairs, As)

    def make():
        import atomtoolkit as tk
        from atomtoolkit.atom import Atom, Transition
        atom = Atom('X', I=spec.I / 2, B=spec.B * tk.G)
        for l in spec.levels:
            atom.add_level(Spec.level(rng, l))
        ls = [atom.levels[l['name']] for l in spec.levels]
        ts = [atom.add_transition(Transition(ls[i], ls[j], A=None if a is None else a * tk.Hz))
              for (i, j), a in zip(pairs, As)]
        return atom, ls, [atom.transitions[ls[i].name, ls[j].name] for i, j in pairs]
    atom, ls, ts = make()
    return spec, atom, ls, ts, pairs, make


def hertz(t):
    return abs(float(t.E_1.level.to('Hz').magnitude) - float(t.E_2.level.to('Hz').magnitude))


def expected_subs(spec, pairs, k, t, zeeman):
    """the pairs of sublevel names that must / may be among the lines of transition t"""
    l0, l1 = spec.levels[pairs[k][0]], spec.levels[pairs[k][1]]
    hp, lead = lib.hf_pairs(spec.I, l0, l1)
    out = {}
    for (F0, F1), rs in hp.items():
        d = lib.must(rs, lead)
        if d is False:
            continue
        if not zeeman:
            out[frozenset((f'{l0["name"]} {fk(F0)}', f'{l1["name"]} {fk(F1)}'))] = d
            continue
        for (a, b), zr in lib.z_pairs(F0, F1, rs).items():
            z = lib.must(zr, lead)
            if z is False:
                continue
            out[frozenset((f'{l0["name"]} {fk(F0)} {mk(a)}', f'{l1["name"]} {fk(F1)} {mk(b)}'))] = \
                True if z and d else None
    return out


class Curve(tuple):
    rgb = None


def curves(draw):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgb
    plt.close('all')
    fig = plt.figure()
    try:
        draw()
        ax = plt.gca()
        out = [Curve((np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_label()))
               for l in ax.lines]
        for c, l in zip(out, ax.lines):
            c.rgb = to_rgb(l.get_color())
        leg = ax.get_legend()
        texts = [t.get_text() for t in leg.get_texts()] if leg is not None else None
        assert plt.gcf() is fig
        return out, texts, ax.get_xlabel(), ax.get_ylim()
    finally:
        plt.close('all')


def check(m, drawn, lines, shape, unit, total, over, label, what, A_coeff=None):
    cs, legend, xlabel, ylim = drawn
    m.ok(re.findall(r'\b[kMGT]?Hz\b', xlabel) == [unit], 'axis', lambda: f'{what}: axis {xlabel!r} in {unit}')
    tot = [c for c in cs if c[2] == 'Total']
    cs = [c for c in cs if c[2] != 'Total']
    m.eq(len(tot), 1 if total else 0, 'one-total', what)
    m.eq(len(cs), len(lines), 'one-per-line', what)
    m.seen('curves', len(cs))
    left = list(range(len(cs)))
    for t in lines:
        f = hertz(t) / UNIT[unit]
        a = float(t.rel_strength) * (over[t.name] if over else 1.0)
        w = shape.w if not callable(shape.w) else shape.w(f)
        slack = 1e-9 + 60 * f * 2.3e-16 / w
        best = None
        for i in left:
            x, y, lab = cs[i]
            mid, half = (x[0] + x[-1]) / 2, (x[-1] - x[0]) / 2
            ok_lab = label(t, lab)
            ok_mid = abs(mid - f) <= 1e-9 * half + 8e-16 * f
            ok_y = half > 0 and np.all(np.abs(y - a * shape.f(x - f, f)) <= (slack + (shape.floor or 0)) * abs(a))
            score = (ok_lab, ok_mid, bool(ok_y))
            if best is None or sum(score) > sum(best[0]):
                best = (score, i)
            if all(score):
                break
        score, i = best
        x, y, lab = cs[i]
        m.ok(score[0], 'label', lambda: f'{what}: {t.name}: closest curve is labelled {lab!r}')
        m.ok(score[1], 'centre', lambda: f'{what}: {t.name} at {f} {unit}: window {x[0]}..{x[-1]}')
        m.ok(score[2], 'height', lambda: f'{what}: {t.name} rel {t.rel_strength} over {over and over[t.name]}: '
                                         f'max {y.max()} where {a} belongs')
        left.remove(i)
        m.state(lab)
    m.eq(sorted(legend or []), sorted([c[2] for c in cs] + [c[2] for c in tot]), 'legend', what)
    top = max(float(c[1].max()) for c in cs + tot)
    m.ok(ylim[0] == 0 and ylim[1] >= top * (1 - 1e-9), 'height-axis', lambda: f'{what}: {ylim} with a peak of {top}')
    if total:
        tx, ty, _ = tot[0]
        m.ok(np.all(np.diff(tx) >= 0), 'total-sorted', what)
        lo, hi, sc = np.zeros_like(tx), np.zeros_like(tx), 0.0
        for x, y, _ in cs:
            m.ok(np.isin(x, tx).all(), 'total-sampled', what)
            inside = (tx >= x[0]) & (tx <= x[-1])
            v = np.interp(tx, x, y)
            lo += np.where(inside, v, np.minimum(v, 0))
            hi += np.where(inside, v, np.maximum(v, 0))
            sc = max(sc, np.abs(y).max())
        tol = 1e-9 * sc * (1 + len(cs))
        bad = (ty < lo - tol) | (ty > hi + tol)
        m.ok(not bad.any(), 'total', lambda: f'{what}: at {tx[bad][0]} total {ty[bad][0]}, lines add up to {lo[bad][0]}'
                                             f'..{hi[bad][0]}')
        m.seen('total-points', len(tx))
        if len(cs) > 1 and any(a[0][0] < b[0][-1] and b[0][0] < a[0][-1] for a, b in itertools.combinations(cs, 2)):
            m.seen('overlap')
    return cs


def colours(m, cs, co, cmap, what):
    """curves are coloured by the quantum number asked for, and shaded by the other one"""
    by, hue = {}, {}
    for c in cs:
        h, li, sat = colorsys.rgb_to_hls(*c.rgb)
        lo, up = (float(Fraction(p.rsplit('=', 1)[1])) for p in c[2].split('→'))
        main, shade = {'l': (lo, up), 'u': (up, lo), 'transition_type': (up - lo, lo)}[co]
        h = round(h, 5) % 1, round(sat, 5)
        m.ok(close(hue.setdefault(main, h), h), 'hue', lambda: f'{what}: {main} drawn in {h} and {hue[main]}')
        m.ok(abs(by.setdefault((main, shade), li) - li) < 1e-6, 'shade',
             lambda: f'{what}: {main}, {shade} drawn {li} and {by[main, shade]}')
    for (a, x), (b, y) in itertools.combinations(by, 2):
        if a == b:
            m.ok(abs(by[a, x] - by[b, y]) > 1e-4, 'shade', lambda: f'{what}: {a}: {x} and {y} drawn {by[a, x]}')
    if cmap is None and len(hue) <= 10:
        for a, b in itertools.combinations(hue, 2):
            m.ok(not close(hue[a], hue[b]), 'hue', lambda: f'{what}: {a} and {b} both drawn {hue[a]}')
    if cmap is not None:
        import matplotlib.pyplot as plt
        from matplotlib.colors import to_rgb
        table = [colorsys.rgb_to_hls(*to_rgb(plt.get_cmap(cmap)(i))) for i in range(plt.get_cmap(cmap).N)]
        for a in hue:
            m.ok(any(close((round(h, 5) % 1, round(sat, 5)), hue[a]) or max(sat, hue[a][1]) < 1e-3 for h, _, sat in table), 'map',
                 lambda: f'{what}: {a} drawn {hue[a]}, which is not of {cmap}')
        m.seen('maps')
    m.seen('hues', len(hue))
    m.seen('shades', len(by))


def close(a, b):
    return abs(a[1] - b[1]) < 1e-3 and min(abs(a[0] - b[0]), 1 - abs(a[0] - b[0])) < 1e-3


def short(t, lab):
    want = (t.E_lower.term.short_name, t.E_upper.term.short_name)
    got = tuple(p.strip() for p in lab.split('→'))
    return got == want


def numbers(t, lab):
    def nums(s):
        d = dict(p.strip().split('=') for p in s.split(','))
        return d['F'], d['mF']
    parts = lab.split('→')
    if len(parts) != 2:
        return False
    try:
        got = [nums(p) for p in parts]
    except (KeyError, ValueError):
        return False
    want = [(o.frac(lib.dbl(e.term.F)), o.frac(lib.dbl(e.term.mF))) for e in (t.E_lower, t.E_upper)]
    return got == want


def overrides(rng, lines):
    if rng.random() < .5:
        return None
    return {t.name: rng.choice([0.0, 1.0, lib.logu(rng, 1e-3, 1e3)]) for t in lines}


def unaltered(rng, m, atom, twin, what):
    seed = rng.random()
    import random
    c19.same(m, c19.snap(random.Random(seed), atom), c19.snap(random.Random(seed), twin), 'atom-altered', what)
    m.seen('twins')


def edit(rng, m, atom, ls):
    """moves the lines without changing the order of the levels"""
    import atomtoolkit as tk
    for _ in range(rng.randint(1, 3)):
        e = rng.choice(ls)
        k = rng.randrange(4)
        if k == 0:
            e.hfA = lib.signed(rng, 1e6, 1e9) * tk.Hz
        elif k == 1:
            atom.B = lib.signed(rng, 1e-2, 1e3) * tk.G
        elif k == 2:
            e.level = e.level + lib.signed(rng, 1e6, 1e12) * tk.Hz
        else:
            e.lande = lib.signed(rng, .1, 3)
        m.op('edit', k, e.name)


def present(m, lines, spec, pairs, ks, ts, zeeman, what):
    """the lines of the library against the selection rules"""
    got = [frozenset((t.E_1.name, t.E_2.name)) for t in lines]
    want = {}
    for k in ks:
        want.update(expected_subs(spec, pairs, k, ts[k], zeeman))
    m.ok(len(got) == len(set(got)) and all(g in want for g in got) and all(p in got for p, d in want.items() if d),
         'lines-present', lambda: f'{what}: {[sorted(p) for p, d in want.items() if d and p not in got][:2]} missing, '
                                  f'{[sorted(g) for g in got if g not in want][:2]} extra')


def transitions(rng, m):
    from atomtoolkit.render import spectra
    spec, atom, ls, ts, pairs, make = build(rng, m)
    kind = rng.choice(['T', 'T', 'H', 'Z', 'mix'])
    if rng.random() < .35:
        # lines of the same names, elsewhere: an isotope in the same spectrum
        other, ols, ots = make()
        edit(rng, m, other, ols)
        m.seen('isotopes')
        ts = ts + ots
    lines = list(ts)
    if kind != 'T':
        hf = [h for t in ts for h in t.values()]
        z = [x for h in rng.sample(hf, min(len(hf), 4)) for x in h.values()]
        lines = {'H': hf, 'Z': z, 'mix': ts + hf + z}[kind]
    rng.shuffle(lines)
    lines = lines[:rng.randint(1, 25)]
    if not lines:
        raise Skip()
    unit = rng.choice(['GHz', 'GHz', 'THz', 'MHz', 'Hz', 'kHz', None])
    u = unit or 'GHz'
    fs = [hertz(t) / UNIT[u] for t in lines]
    span = max(fs) - min(fs) or max(fs)
    for rnd in range(rng.randint(1, 2)):
        sh = Shape(rng, max(span * 10 ** rng.uniform(-4, 0), 1e-9 * max(fs)))
        kw = {}
        if unit:
            kw['unit'] = unit
        total = rng.random() < .8
        if not total or rng.random() < .2:
            kw['total'] = total
        over = overrides(rng, lines)
        if over or rng.random() < .2:
            kw['ampl_dict'] = over
        label = short
        if rng.random() < .3:
            kw['label_func'] = lambda t: 'line ' + t.name
            label = lambda t, lab: lab == 'line ' + t.name      # noqa: E731
        rgb = (0, 0, 0)
        if rng.random() < .3:
            kw['color_func'] = lambda t: (1, 0, 0, .5)
            rgb = (1, 0, 0)
        if rng.random() < .3:
            kw['padding'] = rng.choice([5.0, 1, 100])
        if rng.random() < .3:
            kw['num_points'] = rng.choice([101, 50, 2000])
        m.op('plot', kind, unit, sh.name, total, bool(over), sorted(kw))
        arg = dict(kw)
        was = (list(lines), dict(over) if over else None)
        d = curves(lambda: spectra.plot_transitions(lines, sh.shape, **arg))
        m.ok(was == (lines, over), 'arguments', 'plot_transitions')
        cs = check(m, d, lines, sh, u, total, over, label, f'plot_transitions {kind} {u} {sh.name}')
        m.ok(all(c.rgb == rgb for c in cs), 'colour', 'plot_transitions')
        m.seen('unit:' + u)
        if rnd == 0:
            if kind in 'TH':
                unaltered(rng, m, atom, make()[0], 'plot_transitions')
            edit(rng, m, atom, ls)


def hyperfine(rng, m):
    from atomtoolkit.render import spectra
    spec, atom, ls, ts, pairs, make = build(rng, m)
    single = rng.random() < .5 or len(ts) == 1
    ks = [rng.randrange(len(ts))] if single else rng.sample(range(len(ts)), rng.randint(2, len(ts)))
    given = ts[ks[0]] if single and rng.random() < .7 else [ts[k] for k in ks]
    sub = None
    if rng.random() < .2:
        # some of the hyperfine lines, or transitions and hyperfine lines in one list
        hs = [h for k in ks for h in ts[k].values()]
        sub = given = rng.sample(hs, rng.randint(1, len(hs)))
        if not single and rng.random() < .5:
            given = [ts[ks[0]]] + list(ts[ks[1]].values())
            sub = [h for k in ks[:2] for h in ts[k].values()]
    for rnd in range(2):
        sh = Shape(rng, lib.logu(rng, 1e-2, 1e2))
        kw = {}
        co = rng.choice(['l', 'u', None, 'func'])
        if co == 'func':
            kw['coloring'] = lambda t: (0, 0, 1, .5)
        elif co:
            kw['coloring'] = co
        if rng.random() < .3:
            kw['cmap'] = rng.choice(MAPS)
        over = None
        if rng.random() < .5:
            over = overrides(rng, [h for k in ks for h in ts[k].values()])
        if over:
            kw['ampl_dict'] = over
        m.op('hyperfine', ks, single, co, sh.name, bool(over))
        what = f'plot_hyperfine_spectrum {co} {sh.name}'
        d = curves(lambda: spectra.plot_hyperfine_spectrum(given, lineshape=sh.shape, **kw))
        lines = sub or [h for k in ks for h in ts[k].values()]
        if not sub:
            present(m, lines, spec, pairs, ks, ts, False, what)
        m.seen('hf-list' if sub else 'hf-given')
        cs = check(m, d, lines, sh, 'GHz', True, over, short, what)
        if co == 'func':
            m.ok(all(c.rgb == (0, 0, 1) for c in cs), 'colour', what)
        else:
            colours(m, cs, co or 'l', kw.get('cmap'), what)
        m.seen('hf:' + str(co))
        if rnd == 0:
            unaltered(rng, m, atom, make()[0], what)
            edit(rng, m, atom, ls)


def zeeman(rng, m):
    from atomtoolkit.atom import Transition
    from atomtoolkit.render import spectra
    spec, atom, ls, ts, pairs, make = build(rng, m, Jmax=rng.choice([3, 3, 3, 5]))
    form = rng.choice(['T', 'T', 'H', 'Tlist', 'Hlist', 'Zlist', 'Zlist', 'mixed'])
    k = rng.randrange(len(ts))
    ks = [k]
    hf = list(ts[k].values())
    if form == 'T':
        given = ts[k]
        parts = [ts[k]]
    elif form == 'H':
        parts = [rng.choice(hf)]
        given = parts[0]
    elif form == 'Tlist':
        ks = rng.sample(range(len(ts)), rng.randint(1, len(ts)))
        parts = [ts[i] for i in ks]
        given = parts
    elif form == 'Hlist':
        parts = rng.sample(hf, rng.randint(1, len(hf)))
        given = parts
    elif form == 'Zlist':
        z = [x for h in hf for x in h.values()]
        parts = rng.sample(z, min(len(z), rng.choice([2, 3, 4, rng.randint(1, len(z))])))
        if rng.random() < .5:              # lines far apart in quantum numbers
            q = rng.choice([-1, 0, 1])
            z = sorted((x for x in z if x.E_upper.term.mF - x.E_lower.term.mF == q), key=lambda x: x.E_lower.term.mF)
            parts = z[:1] + rng.sample(z[1:-1], len(z) // 6) + z[-1:] if len(z) > 1 else parts
            m.seen('sparse')
        given = parts
    else:
        parts = [ts[i] for i in range(len(ts)) if i != k] + rng.sample(hf, rng.randint(1, len(hf)))
        given = parts

    def lines():
        out = []
        for p in parts:
            if isinstance(p, Transition):
                out += [z for h in p.values() for z in h.values()]
            elif form == 'Zlist':
                out.append(p)
            else:
                out += list(p.values())
        return out
    m.op('zeeman', form, len(parts))
    for rnd in range(2):
        sh = Shape(rng, lib.logu(rng, 1e-3, 10))
        kw = {}
        co = rng.choice(['l', 'u', 'transition_type', None, 'func'])
        if co == 'func':
            kw['coloring'] = lambda t: (0, 0, 1, .5)
        elif co:
            kw['coloring'] = co
        if rng.random() < .3:
            kw['cmap'] = rng.choice(MAPS)
        if rng.random() < .2:
            kw['total'] = rng.random() < .5
        if rng.random() < .2:
            kw['num_points'] = rng.choice([101, 400])
        over = overrides(rng, lines()) if rng.random() < .5 and (form == 'Zlist' or rnd) else None
        if over:
            kw['ampl_dict'] = over
        what = f'plot_zeeman_spectrum {form} {co} {sh.name}'
        m.op('plot', co, sh.name, sorted(kw))
        d = curves(lambda: spectra.plot_zeeman_spectrum(given, lineshape=sh.shape, **kw))
        zs = lines()
        if form in ('T', 'Tlist'):
            present(m, zs, spec, pairs, ks, ts, True, what)
        cs = check(m, d, zs, sh, 'GHz', kw.get('total', True), over, numbers, what)
        if co == 'func':
            m.ok(all(c.rgb == (0, 0, 1) for c in cs), 'colour', what)
        else:
            colours(m, cs, co or 'transition_type', kw.get('cmap'), what)
        m.seen('z:' + str(co))
        m.seen('form:' + form)
        if rnd == 0:
            if len(zs) < 120 or rng.random() < .3:
                unaltered(rng, m, atom, make()[0], what)
            edit(rng, m, atom, ls)


KB, C, AMU = 1.380649e-23, 299792458.0, 1.66053906660e-27


class Laser:
    """the shape plot_spectrum picks from a temperature, a mass and a laser linewidth"""
    floor = None

    def __init__(self, sigma, gam):
        self.sigma, self.gam = sigma, gam
        self.floor = 1e-7
        self.name = f'sigma {sigma:.3g} gamma {gam:.3g}'

    def w(self, f):
        return max(self.sigma * f, self.gam)

    def f(self, d, f):
        s = self.sigma * f
        if s == 0:
            return lor(d, self.gam)
        r = self.gam / s
        if r < .06 or r > 18:
            self.floor = 2.5e-2
        if r < 1e-9:
            self.floor = 1e-7
            return np.exp(-(d / s) ** 2 / 2)
        self.floor = 1e-7 if .06 <= r <= 18 else 2.5e-2
        return voigt(d, s, self.gam)


def spectrum(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.render import spectra
    spec, atom, ls, ts, pairs, make = build(rng, m, Jmax=3)
    kind = rng.choice(['T', 'H', 'H', 'Z', 'Tdict', 'Hdict'])
    k = rng.randrange(len(ts))
    hf = list(ts[k].values())
    given = {'T': lambda: list(ts), 'H': lambda: hf, 'Z': lambda: list(rng.choice(hf).values()), 'Tdict': lambda: ts[k],
             'Hdict': lambda: rng.choice(hf)}[kind]()
    lines = given if isinstance(given, list) else list(given.values())
    if not lines:
        raise Skip()
    zee = kind in ('Z', 'Hdict')
    co = rng.choice(['l', 'u', None] + (['transition_type'] if zee else []))
    kw = {'coloring': co} if co else {}
    if rng.random() < .3:
        kw['cmap'] = rng.choice(MAPS)
    over = overrides(rng, lines)
    if over:
        kw['ampl_dict'] = over
    f = max(hertz(t) for t in lines) / 1e9
    gam = lib.logu(rng, 1e-3, 1e2)
    q = rng.choice([tk.Q_(gam, 'GHz'), tk.Q_(gam * 1e3, 'MHz'), tk.Q_(gam * 1e9, 'Hz')])
    mode = rng.choice(['shape', 'cold', 'thermal', 'thermal', 'thermal-nolaser'])
    if mode == 'shape':
        sh = Shape(rng, lib.logu(rng, 1e-2, 1e2))
        kw['lineshape'] = sh.shape
    elif mode == 'cold':
        kw.update(temp=tk.Q_(0.0, 'K'), laser_linewidth=q)
        if rng.random() < .5:
            kw['mass'] = tk.Q_(100.0, 'amu')
        sh = Laser(0.0, gam)
    else:
        T, mass = lib.logu(rng, 1e-3, 3e3), rng.uniform(1, 250)
        kw.update(temp=rng.choice([tk.Q_(T, 'K'), tk.Q_(T * 1e3, 'mK')]), mass=tk.Q_(mass, 'amu'))
        if mode == 'thermal':
            kw['laser_linewidth'] = q
        sh = Laser(math.sqrt(KB * T / (mass * AMU)) / C, gam if mode == 'thermal' else 0.0)
    what = f'plot_spectrum {kind} {co} {mode} {sh.name} at {f} GHz'
    m.op('spectrum', kind, co, mode, sh.name, bool(over))
    d = curves(lambda: spectra.plot_spectrum(given, **kw))
    cs = check(m, d, lines, sh, 'GHz', True, over, short, what)
    if kind == 'T':
        m.ok(all(c.rgb == (0, 0, 0) for c in cs), 'colour', what)
    else:
        colours(m, cs, co or 'l', kw.get('cmap'), what)
    m.seen('mode:' + mode)
    if kind in ('T', 'H', 'Tdict'):
        unaltered(rng, m, atom, make()[0], what)


SCENARIOS = {'transitions': (160, 1600, transitions), 'hyperfine': (160, 1600, hyperfine),
             'zeeman': (120, 1200, zeeman), 'spectrum': (160, 1600, spectrum)}
REQUIRED = {'isotopes': 12, 'curves': 1500, 'overlap': 50, 'twins': 100, 'total-points': 100000, 'mode:cold': 5, 'mode:thermal': 5, 'hf-list': 20, 'sparse': 3,
            'hf-given': 60, 'maps': 50}
