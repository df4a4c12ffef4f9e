import copy
import os
import random
import shutil
import tempfile

import numpy as np

import c09
import c19
import c20
import lib
from lib import Fs, Ms, Spec, fk, mk
from machine import World

ID = 'C28'
RULE = ('Each case runs the random histories of two or three atoms whose levels have the same names in turns, and after every '
        'step on one of them the monitors of every other one must find it as it was; or makes terms, tables, column '
        'mappings, lists, arrays and line shapes once and uses them several times over, comparing them with copies made '
        'before; or changes what a call returned and asks again.')
ASSUMPTIONS = ['Views (keys(), values(), items() of levels and transitions) are live and are not changed by the caller.',
               'Levels and transitions themselves belong to one atom and are not given to two.']

ALL = ['coherent', 'directory', 'pairs', 'subpairs', 'hf', 'zeeman', 'strength', 'difference', 'rates', 'struct']


def atoms(rng, m):
    """isotopes: atoms of the same levels, with constants, fields, energies and histories of their own"""
    from atomtoolkit.atom import EnergyLevel
    from atomtoolkit.term import MultiTerm, Term
    import atomtoolkit as tk
    ws = [World(rng, m, ALL, ('others',), nlev=(2, 4))]
    first = ws[0].spec
    for _ in range(rng.randint(1, 2)):
        spec = copy.deepcopy(first)
        spec.I = rng.choice([first.I, 0, 1, 2, 3])
        spec.B = lib.signed(rng, 1e-2, 1e3, .3)
        for l in spec.levels:
            l['E'] += rng.choice([0.0, lib.signed(rng, 1e6, 1e12)])
            for k in ('A', 'Bq', 'C'):
                l[k] = rng.choice([0.0, l[k], lib.signed(rng, 1e5, 1e9)])
            l['lande'] = rng.choice([l['lande'], lib.signed(rng, .1, 3)])
        ws.append(World(rng, m, ALL, ('others',), spec=spec))
        ws[-1].apart = ws[0].apart
    if rng.random() < 0.6:
        # the same term objects for the levels of all atoms
        terms = [Term(l['conf'], l['term'], l['J'] / 2) for l in first.levels]
        terms = [rng.choice([t, MultiTerm(t)]) for t in terms]
        for w in ws:
            w.lv = [EnergyLevel(t, l['E'] * tk.Hz, lande=l['lande'], hfA=l['A'] * tk.Hz, hfB=l['Bq'] * tk.Hz,
                                hfC=l['C'] * tk.Hz) for t, l in zip(terms, w.L)]
        m.seen('shared-terms')
    for w in ws:
        w.ops = w.ops + ['readd-t', 'joined-t']
        mine, w.aspects = w.aspects, []
        for i in rng.sample(range(w.n), rng.randint(1, w.n)):
            w.step('level', i)
        w.aspects = mine
    for _ in range(rng.randint(10, 22)):
        k = rng.randrange(len(ws))
        w = ws[k]
        # whatever the history does to its own atom is the business of other checks: here only the others are watched
        mine, w.aspects = w.aspects, []
        w.step(rng.choice(w.ops))
        w.aspects = mine
        for j, v in enumerate(ws):
            if j == k:
                continue
            v.want = {i: v.E(i) for i in range(v.n)}
            v.mag = max(abs(v.E(i)) for i in range(v.n))
            v.cat, v.rel = 'others', None
            v.what = f'atom {j} after {w.what} on atom {k}'
            v.settle()
            for a in rng.sample(ALL, 5):
                getattr(v, 'check_' + a)()
            m.seen('others-checked')
    m.seen('isotopes')


def mixtures(rng, m):
    """levels of one name in several atoms, each with admixtures of its own: every one has its own g-factor"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, EnergyLevel
    from atomtoolkit.term import MultiTerm, Term
    d0 = c09.known(rng)
    made = []
    for k in range(rng.randint(3, 5)):
        ds = [d0] + [c09.known(rng, d0['J']) for _ in range(rng.randint(0, 2))]
        ps = [rng.uniform(51, 99)] + [rng.uniform(1, 20) for _ in ds[1:]]
        ts = [Term(d['conf'], d['term'], d0['J'] / 2, percentage=p) for d, p in zip(ds, ps)]
        e = EnergyLevel(MultiTerm(*ts) if len(ts) > 1 or rng.random() < .5 else ts[0], 1e14 * tk.Hz)
        if rng.random() < .2:
            e.lande = g = lib.signed(rng, .1, 3)
        else:
            g = sum(p * c09.expected(d) for p, d in zip(ps, ds)) / sum(ps)
        Atom('x', rng.choice([0, .5, 1])).add_level(e)
        made.append((e, g))
        m.op('mixture', e.name, ps, g)
        m.ok(e.name == made[0][0].name, 'one-name', lambda: f'{e.name}, {made[0][0].name}')
        for x, want in made:
            m.ok(abs(float(x.lande) - want) < 1e-9, 'own-lande', lambda: f'{x.name}: {x.lande}, expected {want}')
    m.seen('mixtures')
    m.state('mixtures', len(made))


def frozen(m, what, before, after):
    """arguments are as they were"""
    import pandas as pd
    if isinstance(before, pd.DataFrame):
        same = list(before.columns) == list(after.columns) and before.index.equals(after.index) and \
            [str(t) for t in before.dtypes] == [str(t) for t in after.dtypes] and repr(before.to_dict()) == repr(after.to_dict())
    elif isinstance(before, np.ndarray):
        same = np.array_equal(before, after)
    elif isinstance(before, (list, tuple)):
        same = len(before) == len(after) and all(x is y or x == y for x, y in zip(before, after))
    else:
        same = before == after
    m.ok(same, 'argument', lambda: f'{what}: {before!r} became {after!r}')


def termvars(t):
    from atomtoolkit.term import Term
    return {k: repr(getattr(t, k)) for k in Term.__slots__}


def arguments(rng, m):
    import pandas as pd
    import atomtoolkit as tk
    from atomtoolkit import IO
    from atomtoolkit import transition_strengths as ts
    from atomtoolkit.atom import Atom, EnergyLevel, Transition
    from atomtoolkit.term import MultiTerm, Term
    spec = Spec(rng, nlev=(2, 6), I=[0, 1, 2, 3], Jmax=5, hf=0.7, B=0.4, lande=0.8, style='LS', aliases=0,
                energies=lambda r, i: (i + 1) * 1e14 + r.uniform(0, 5e13))
    rng.shuffle(spec.levels)
    kind = rng.choice(['terms', 'tables', 'mapping', 'lists', 'vectors', 'constants'])
    m.op(kind, spec.I, [l['name'] for l in spec.levels])
    m.seen('given-' + kind)
    if kind == 'terms':
        d = lib.gen_any(rng)
        e = lib.gen_any(rng)
        t = Term(d['conf'], d['term'], d['J'] / 2, percentage=rng.choice([100.0, 60, 3.5]))
        u = Term(e['conf'], e['term'], d['J'] / 2, percentage=rng.choice([30, 0.5]))
        was = [termvars(t), termvars(u)]
        mt = MultiTerm(t, u)
        wasm = [termvars(x) for x in mt]
        order = [x for x in mt]
        for I in rng.sample([0, 1, 2, 3], 2):
            a = Atom('x', I=I / 2)
            x = rng.choice([t, mt])
            lv = EnergyLevel(x, 1e14 * tk.Hz)
            a.add_level(lv)
            for h in lv.values():
                list(h.values())
            (lv.term if rng.random() < .5 else mt).make_term_copy(F=I / 2 + d['J'] / 2, mF=0)
            m.ok(lv.term.F is None and lv.term.mF is None, 'argument', lambda: f'{lv.term}')
        m.eq([termvars(t), termvars(u)], was, 'argument', 'terms given to a mixture and levels')
        m.eq([termvars(x) for x in mt], wasm, 'argument', 'the mixture given to levels')
        m.ok(len(mt) == len(order) and all(x is y for x, y in zip(mt, order)), 'argument', 'components of the mixture')
    elif kind == 'tables':
        df = c20.level_table(rng, spec)
        rows = c20.rows_for(rng, m, spec)
        tdf = c20.table(rng, rows)
        was, twas = df.copy(deep=True), tdf.copy(deep=True)
        got = []
        for _ in range(2):
            if rng.random() < .5:
                a = Atom.from_dataframe(df, 'x', spec.I / 2)
                a.populate_transitions_df(tdf)
            else:
                a = IO.generate_full_from_dataframe(df, 'x', spec.I / 2, transitions_df=tdf)
            EnergyLevel.from_dataframe(df, 0)
            frozen(m, 'level table', was, df)
            frozen(m, 'transition table', twas, tdf)
            got.append([(e.name, e.level_Hz) for e in a.levels.values()]
                       + [(k, t.freq_Hz, str(t.A)) for k, t in zip(a.transitions.keys(), a.transitions.values())
                          if k[0] != k[1]])
            for e in a.levels.values():       # the second atom starts from the table again
                e.level = e.level + rng.choice([0.0, 1e9]) * tk.Hz
        m.eq(got[1], got[0], 'same-again', 'the same tables used twice')
    elif kind == 'mapping':
        d = tempfile.mkdtemp(prefix='verif-c28-')
        try:
            p = os.path.join(d, 't.csv')
            fs = [lib.logu(rng, 1, 1e3) for _ in range(6)]
            ls = spec.levels
            with open(p, 'w', encoding='utf-8') as f:
                f.write('cl,tl,jl,cu,tu,ju,f1,f2,a1,a2\n')
                for k in range(3):
                    x, y = rng.choice(ls), rng.choice(ls)
                    f.write(','.join(f'"{v}"' for v in (x['conf'], x['term'], x['J'] / 2, y['conf'], y['term'], y['J'] / 2))
                            + f',{fs[k]},{fs[k] + 1},{fs[k + 3]},{fs[k + 3] + 2}\n')
            cols = dict(conf_l='cl', term_l='tl', j_l='jl', conf_u='cu', term_u='tu', j_u='ju')
            kf, ka = rng.choice(['freq', 'frequency']), rng.choice(['A', 'A_coeff'])
            for n in (1, 2):
                cols[kf], cols[ka] = f'f{n}', f'a{n}'
                was = dict(cols)
                df = IO.load_transition_data(p, cols)
                frozen(m, 'column mapping', was, cols)
                for k in range(3):
                    m.close(float(df['freq'].iloc[k]), fs[k] + n - 1, 'mapped', f'{cols}', rel=1e-12)
                    m.close(float(df['A'].iloc[k].to('MHz').magnitude), fs[k + 3] + 2 * (n - 1), 'mapped', f'{cols}', rel=1e-12)
            q = os.path.join(d, 'l.csv')
            with open(q, 'w', encoding='utf-8') as f:
                f.write('c,t,j,e1,e2\n' + ''.join(f'"{l["conf"]}","{l["term"]}",{l["J"] / 2},{l["E"] / 1e12},{l["E"] / 1e11}\n'
                                                  for l in ls))
            lc = {'Configuration': 'c', 'Term': 't', 'J': 'j'}
            for n in (1, 2):
                lc['Level (cm-1)'] = f'e{n}'
                was = dict(lc)
                df = IO.load_level_data(q, lc)
                frozen(m, 'column mapping', was, lc)
                for k, l in enumerate(ls):
                    m.close(float(df['Level (cm-1)'].iloc[k].magnitude), l['E'] / (1e12 if n == 1 else 1e11), 'mapped', l['name'],
                            rel=1e-12)
        finally:
            shutil.rmtree(d)
    elif kind == 'lists':
        lv = [Spec.level(rng, l) for l in spec.levels]
        tr = [Transition(lv[i], lv[j]) for i in range(len(lv)) for j in range(i) if any(lib.pair_kinds(spec.levels[i], spec.levels[j]))]
        lw, tw = list(lv), list(tr)
        a = Atom('x', spec.I / 2, levels=lv, transitions=tr)
        frozen(m, 'levels', lw, lv)
        frozen(m, 'transitions', tw, tr)
        lv.append('not a level')
        tr.clear()
        m.eq([e.name for e in a.levels.values()], [e.name for e in lw], 'independent', 'after changing the list of levels')
        m.eq(len(a.transitions), len(tw), 'independent', 'after changing the list of transitions')
        al = [True, rng.random() < .5, False]
        aw = list(al)
        a.populate_transitions(allowed=al)
        frozen(m, 'allowed', aw, al)
    elif kind == 'vectors':
        e, k = np.array([rng.gauss(0, 1) for _ in range(3)]), np.array([rng.gauss(0, 1) for _ in range(3)])
        k = k - e * (k @ e) / (e @ e)
        I, J0, J1 = 1, 2, rng.choice([0, 2, 4])
        for name in ('E1', 'M1', 'E2'):
            for f in ('_mel_geom', '_transition_strength_geom'):
                e0, k0 = e.copy(), k.copy()
                F0, F1 = rng.choice(Fs(I, J0)), rng.choice(Fs(I, J1))
                q = [x / 2 for x in (I, J0, F0, rng.choice(Ms(F0)), J1, F1, rng.choice(Ms(F1)))]
                args = (e, k) if name == 'E2' else (e,)
                r = getattr(ts, name + f)(*args, *q)
                frozen(m, name + f, e0, e)
                frozen(m, name + f, k0, k)
                # the same array with other contents is another polarization
                e *= -3
                m.close(abs(getattr(ts, name + f)(*args, *q)), abs(r), 'same-again', name + f, rel=1e-9, abs_=1e-12)
                e[:] = e[[1, 2, 0]]
                k[:] = k[[1, 2, 0]]
                args = (e, k) if name == 'E2' else (e,)
                fresh = getattr(ts, name + f)(*(tuple(float(v) for v in x) for x in args), *q)
                m.close(abs(getattr(ts, name + f)(*args, *q)), abs(fresh), 'same-again', name + f, rel=1e-9, abs_=1e-12)
    else:
        # levels made without constants share nothing
        l0, l1 = (Spec.level(rng, l) for l in rng.sample(spec.levels, 2))
        plain = [EnergyLevel(Term(f'{n}s', '2S', '1/2'), tk.Q_(1.0, 'THz')) for n in (4, 5, 6)]
        a = Atom('x', spec.I / 2)
        b = Atom('y', spec.I / 2)
        a.add_level(plain[0])
        b.add_level(plain[1])
        v = lib.signed(rng, 1e5, 1e9)
        rng.choice([lambda: setattr(plain[0], 'hfA', v * tk.Hz), lambda: setattr(plain[0], 'hfB', v * tk.Hz),
                    lambda: setattr(a, 'B', 5 * tk.G), lambda: setattr(plain[0], 'level', v * tk.Hz),
                    lambda: setattr(plain[0], 'alias', 'mine')])()
        for e in plain[1:] + [EnergyLevel(Term('7s', '2S', '1/2'), tk.Q_(1.0, 'THz'))]:
            m.ok(e.hfA_Hz == e.hfB_Hz == e.hfC_Hz == 0 and e.level_Hz == 1e12 and e.alias is None, 'independent', e.name)
        m.ok(b.B_gauss == 0 and Atom('z').B_gauss == 0 and len(Atom('z').levels) == 0, 'independent', 'the field')
        m.raises(KeyError, lambda: b.levels['mine'], 'independent', 'aliases')
        m.eq(a.levels.list_names(), [plain[0].name], 'independent')


def spectrum(rng, m, shape):
    """the lists of lines and amplitudes given to plots, several times over"""
    import itertools
    import matplotlib.pyplot as plt
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    from atomtoolkit.render import spectra
    spec = Spec(rng, nlev=(2, 3), I=[0, 1, 2], Jmax=4, aliases=0, energies=lambda r, i: (i + 1) * 1e14)
    atom, levels = spec.build(rng, m)
    ts = [atom.add_transition(Transition(levels[i], levels[j], A=1e6 * tk.Hz))
          for i, j in itertools.combinations(range(len(levels)), 2) if any(lib.pair_kinds(spec.levels[i], spec.levels[j]))]
    hs = [h for t in ts for h in t.values()]
    zs = [z for h in hs[:4] for z in h.values()]
    calls = [(f, x) for f, x in [(spectra.plot_transitions, ts), (spectra.plot_transitions, hs), (spectra.plot_transitions, zs),
                                 (spectra.plot_hyperfine_spectrum, ts), (spectra.plot_hyperfine_spectrum, hs),
                                 (spectra.plot_zeeman_spectrum, ts), (spectra.plot_zeeman_spectrum, hs),
                                 (spectra.plot_spectrum, hs), (spectra.plot_spectrum, zs)] if x]
    for f, x in rng.sample(calls, min(3, len(calls))):
        amp = {t.name: lib.logu(rng, .1, 10) for t in ts + hs + [z for h in hs for z in h.values()]}
        kw = dict(lineshape=shape, ampl_dict=amp)
        if f is not spectra.plot_spectrum:
            kw.update(num_points=rng.randint(20, 60))
        before = list(x), dict(amp), dict(kw), dict(vars(shape))
        first = None
        for _ in range(2):
            try:
                plt.close('all')
                f(x, **kw)
                got = [(l.get_label(), l.get_xydata().tolist()) for l in plt.gca().get_lines()]
            finally:
                plt.close('all')
            m.ok(len(x) == len(before[0]) and all(a is b for a, b in zip(x, before[0])), 'argument', f'{f.__name__}: lines')
            m.eq(amp, before[1], 'argument', f'{f.__name__}: amplitudes')
            m.ok(kw == before[2] and vars(shape) == before[3], 'argument', f'{f.__name__}: {kw}')
            m.ok(first is None or got == first, 'drawn-again', f.__name__)
            first = got
        m.seen('spectra')


def shapes(rng, m):
    """line shapes, figures and diagrams used again"""
    import matplotlib.pyplot as plt
    import atomtoolkit as tk
    from atomtoolkit.render import grotrian, lineshapes as ls
    g = lib.logu(rng, 1e-3, 1e3)
    kind = rng.choice(['L', 'G', 'M', 'T', 'V', 'diagram', 'diagram', 'spectrum', 'spectrum', 'spectrum'])
    m.op(kind, g)
    if kind == 'spectrum':
        return spectrum(rng, m, ls.LorentzianLineShape(g))
    if kind == 'diagram':
        spec = Spec(rng, nlev=(2, 4), I=[0, 1, 2], Jmax=4, aliases=0)
        atom, levels = spec.build(rng, m)
        a, b = grotrian.Grotrian(), grotrian.Grotrian()
        try:
            plt.close('all')
            kw = dict(width=2.0)
            a.add_level(levels[0], 'g')
            b.add_level(levels[1], 'g', **kw)
            m.eq(kw, dict(width=2.0), 'argument')
            b.render(plt.figure().gca())
            rows = repr(b.lines_df.to_dict())
            a.add_level(levels[1], 'hf')
            fig = plt.figure()
            a.render(fig.gca())
            first = repr(a.lines_df.to_dict()), repr(fig.gca().dataLim.get_points().tolist())
            m.eq([len(a.level_prompts), len(b.level_prompts)], [2, 1], 'diagrams', 'levels asked for')
            m.ok(repr(b.lines_df.to_dict()) == rows, 'diagrams', 'rows of the second')
            # and drawn again, a diagram is the same
            fig = plt.figure()
            a.render(fig.gca())
            m.eq((repr(a.lines_df.to_dict()), repr(fig.gca().dataLim.get_points().tolist())), first, 'diagrams', 'drawn again')
            c = grotrian.Grotrian()
            m.ok(len(c.level_prompts) == len(c.lines_df) == len(c.transition_prompts) == 0, 'diagrams', 'a new one is empty')
        finally:
            plt.close('all')
        m.seen('diagrams')
        return
    make = {'L': lambda: ls.LorentzianLineShape(g), 'G': lambda: ls.GaussianLineShape(g),
            'M': lambda: ls.ModLorentzianLineShape(g, 1.3, 4 * g, 3), 'T': lambda: ls.ThermalGaussianLineShape(300 * tk.ureg.K, 171 * tk.ureg.amu),
            'V': lambda: ls.ThermalLineShape(300 * tk.ureg.K, 171 * tk.ureg.amu, g)}
    one = make[kind]()
    uses = [(rng.uniform(1e5, 1e6), rng.randint(20, 200), rng.choice([dict(), dict(ampl=rng.uniform(.1, 5)),
                                                                     dict(padding=rng.uniform(1, 30))])) for _ in range(5)]
    for x0, n, kw in uses + uses[:2]:
        k0 = dict(kw)
        x, y = one.compute(x0, num_points=n, **kw)
        u, v = make[kind]().compute(x0, num_points=n, **kw)
        m.ok(np.array_equal(x, u) and np.array_equal(y, v), 'shape-again', f'{kind} {x0} {n} {kw}')
        m.eq(kw, k0, 'argument')
        x += 1.0
        y *= 2.0                            # what was returned is the caller's
    m.seen('shapes')


def results(rng, m):
    """what a call returned is changed, and the same is asked again"""
    import atomtoolkit as tk
    from atomtoolkit import transition_strengths as ts, util
    from atomtoolkit.atom import Transition
    k = rng.choice(['JJ', 'JK', 'LK', 'atom', 'atom', 'atom'])
    m.op('results', k)
    if k != 'atom':
        q = {'JJ': lib.gen_JJ(rng, False, 'CC'), 'JK': lib.gen_JK(rng, False), 'LK': lib.gen_LK(rng, False)}[k]
        J, q = q['J'] / 2, {n: v / 2 if v is not None else v for n, v in q['q'].items()}
        args = {'JJ': lambda: (J, q['jc'], q['jo'], q['lc'], q['sc'], q['lo'], q['so']),
                'JK': lambda: (J, q['jc'], q['k'], q['lc'], q['sc'], q['lo'], q['so']),
                'LK': lambda: (J, q['l'], q['k'], q['sc'], q['so'])}[k]()
        f, g = getattr(ts, k + '_to_LS'), getattr(util, f'readable_{k}_to_LS')
        a, b = f(*args), g(*args)
        a0, b0 = np.array(a), list(b)
        a[2] = a[2] ** 2
        a *= 0.5
        b.append(('nothing', 1.0))
        m.ok(np.array_equal(f(*args), a0), 'own-result', lambda: f'{k}_to_LS{args}: {f(*args)!r}, was {a0!r}')
        m.eq(g(*args), b0, 'own-result', f'readable_{k}_to_LS{args}')
        m.seen('own-arrays')
        return
    spec = Spec(rng, nlev=(2, 5), I=[0, 1, 2], Jmax=4, aliases=0.5,
                energies=lambda r, i: (i + 1) * 1e14 + r.uniform(0, 5e13))
    atom, levels = spec.build(rng, m)
    for i in range(len(levels)):
        for j in range(i):
            if any(lib.pair_kinds(spec.levels[i], spec.levels[j])):
                atom.add_transition(Transition(levels[i], levels[j], A=lib.logu(rng, 1, 1e8) * tk.Hz))
    e = rng.choice(levels)
    ts_ = list(atom.transitions.values())
    asks = [lambda: atom.levels.list_names(), lambda: atom.transitions.list_names(), lambda: atom.levels[:],
            lambda: atom.levels[0:2], lambda: e.sublevels(), lambda: e.sublevels()[0].sublevels(),
            lambda: atom.linked_levels(e.name), lambda: atom.compute_branching_ratios(e.name),
            lambda: atom.linked_levels(e.sublevels()[0].name), lambda: atom.compute_branching_ratios(e.sublevels()[-1].name),
            lambda: atom.transitions.list_names(hide_self_transitions=False)]
    if ts_:
        t = rng.choice(ts_)
        asks += [lambda: t.subtransitions()] * 2
    for f in rng.sample(asks, 4):
        one = f()
        was = dict(one) if isinstance(one, dict) else list(one)
        if isinstance(one, dict):
            one['nothing'] = None
            for key in list(was)[:1]:
                del one[key]
        else:
            one.append('nothing')
            del one[0]
        two = f()
        m.ok((dict(two) if isinstance(two, dict) else list(two)) == was, 'own-result', lambda: f'{was!r} became {two!r}')
        m.seen('own-lists')
    m.eq(sorted(x.name for x in atom.levels.values()), sorted(l['name'] for l in spec.levels), 'independent', 'levels')
    for x in levels:
        m.eq(len(x), len(Fs(spec.I, lib.dbl(x.term.J))), 'independent', x.name)


SCENARIOS = {'atoms': (160, 2400, atoms), 'arguments': (640, 6000, arguments), 'shapes': (160, 1200, shapes),
             'results': (400, 4000, results), 'mixtures': (160, 1600, mixtures)}
REQUIRED = {'spectra': 60, 'mixtures': 120, 'isotopes': 120, 'others-checked': 1500, 'shared-terms': 50, 'check:argument': 1000, 'own-arrays': 80,
            'own-lists': 500, 'diagrams': 20, 'shapes': 60, 'check:same-again': 200,
            **{'given-' + k: 50 for k in ('terms', 'tables', 'mapping', 'lists', 'vectors', 'constants')}}
