import math

import lib
import oracle as o
from engine import Skip
from lib import num

ID = 'C09'
RULE = ('Each case draws a term or mixture in LS, JJ, J1K or LK notation and compares the Lande factor of a level '
        'built from it (directly or from a table row) with an exact LS-weighted average.')
ASSUMPTIONS = ['All components of a mixture share J (they describe one level).',
               'Mixtures that combine known and unknown ancestors are not drawn; lower-case electrons in JJ notation '
               'are excluded (the library gives them no spin).']


def expected(d):
    """(Lande factor, whether ancestors are known)"""
    J, q = d['J'], d['q']
    if J == 0:
        return 0.0
    c = d['coupling']
    if c == 'LS':
        return o.g_LS(q['l'], q['s'], J)
    if c == 'JJ':
        if q['sc'] is None or q['so'] is None:
            return 0.0
        t = o.jj_ls(J, q['jc'], q['jo'], q['lc'], q['sc'], q['lo'], q['so'])
    elif c == 'JK':
        t = o.jk_ls(J, q['jc'], q['k'], q['lc'], q['sc'], q['lo'], q['so'])
    else:
        t = o.lk_ls(J, q['l'], q['k'], q['sc'], q['so'])
    n = sum(a * a for a in t.values())
    assert abs(n - 1) < 1e-9, (d, n)
    return sum(a * a * o.g_LS(L, S, J) for (L, S), a in t.items())


def known(rng, J=None):
    for _ in range(400):
        c = rng.choice(['LS', 'JK', 'LK', 'JJ'])
        d = lib.gen_JJ(rng, False, rng.choice(['CC', 'T'])) if c == 'JJ' else lib.GENS[c](rng, False)
        if J is None or d['J'] == J:
            return d
    raise Skip


def single(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import EnergyLevel
    from atomtoolkit.term import MultiTerm, Term
    for _ in range(8):
        d = known(rng) if rng.random() < 0.85 else lib.gen_JJ(rng, False, rng.choice(['PC', 'Pl']))
        if 'P' in d.get('form', '') and d['J']:
            m.seen('unknown-ancestors')
        t = Term(d['conf'], d['term'], num(rng, d['J']), percentage=rng.choice([100.0, 37, 1.5]))
        if rng.random() < 0.3:
            t = MultiTerm(t)
        m.op('level', d['coupling'], d['conf'], d['term'], d['J'])
        e = EnergyLevel(t, rng.uniform(0, 1e15) * tk.Hz)
        m.ok(abs(float(e.lande) - expected(d)) < 1e-9, 'lande',
             lambda: f'{e.name}: {e.lande} vs {expected(d)}')
        m.seen(d['coupling'])
        if d['J'] == 0:
            m.seen('J0')
        m.state(d['coupling'], d['J'], tuple(sorted((k, str(v)) for k, v in d['q'].items())))
        g = rng.choice([0, 0.0, 1, 1.25, -0.3, 2.5e-9])
        for kw in (dict(lande=g), ):
            f = EnergyLevel(t, 1.0 * tk.Hz, **kw)
            m.ok(f.lande == g, 'kept', lambda: f'{g} -> {f.lande}')


def mixture(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import EnergyLevel
    from atomtoolkit.term import MultiTerm, Term
    d0 = known(rng)
    ds = [d0] + [known(rng, d0['J']) for _ in range(rng.randint(1, 3))]
    ps = [rng.choice([rng.randint(1, 99), rng.uniform(0.1, 99)]) for _ in ds]
    if rng.random() < 0.3:
        ps[-1] = ps[0]                     # equal shares
    gs = [expected(d) for d in ds]
    want = math.fsum(p * g for p, g in zip(ps, gs)) / math.fsum(ps)
    m.op('mixture', [(d['coupling'], d['conf'], d['term'], p) for d, p in zip(ds, ps)], d0['J'])
    lo, hi = min(gs), max(gs)
    for _ in range(4):
        scale = rng.choice([1, 0.01, 3.7, 1e-6, 100])
        order = list(range(len(ds)))
        rng.shuffle(order)
        ts = [Term(ds[i]['conf'], ds[i]['term'], num(rng, d0['J']), percentage=ps[i] * scale) for i in order]
        e = EnergyLevel(MultiTerm(*ts), 1e14 * tk.Hz)
        m.ok(abs(float(e.lande) - want) < 1e-9, 'mixture',
             lambda: f'{[(ds[i]["term"], ps[i] * scale) for i in order]} J={d0["J"]}/2: {e.lande} vs {want}')
        m.ok(lo - 1e-9 <= e.lande <= hi + 1e-9, 'between', lambda: f'{e.lande} outside {lo}..{hi}')
    m.seen('mixtures')
    m.state('mix', d0['J'], len(ds), round(want, 6))


def frame(rng, m):
    import numpy as np
    import pandas as pd
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, EnergyLevel
    n = rng.randint(2, 6)
    rows, want = [], []
    for i in range(n):
        d = known(rng)
        two = rng.random() < 0.5
        d2 = None
        if two:
            try:
                d2 = known(rng, d['J'])
            except Skip:
                two = False
        p, p2 = float(rng.randint(30, 95)), float(rng.randint(1, 29))
        g = rng.choice([None, float('nan'), np.nan, 0.0, 1.17, -0.5])
        rows.append({'Level (cm-1)': 100.0 * i + rng.random(), 'J': o.frac(d['J']), 'Lande': g, 'Configuration': d['conf'],
                     'Term': d['term'], 'Percentage': p, 'Configuration_2': d2['conf'] if two else np.nan,
                     'Term_2': d2['term'] if two else '', 'Percentage_2': p2 if two else np.nan})
        est = expected(d) if not two else (p * expected(d) + p2 * expected(d2)) / (p + p2)
        want.append(est if g is None or g != g else g)
        m.op('row', d['term'], d['J'], g, two and d2['term'])
    df = pd.DataFrame(rows)
    df['Lande'] = pd.to_numeric(df['Lande'])
    df['Level (cm-1)'] = df['Level (cm-1)'].astype('pint[cm**-1]')
    for i in range(n):
        e = EnergyLevel.from_dataframe(df, i)
        m.ok(abs(float(e.lande) - want[i]) < 1e-9, 'row-lande', lambda: f'row {rows[i]}: {e.lande} vs {want[i]}')
        m.seen('rows')


SCENARIOS = {'single': (200, 3000, single), 'mixture': (200, 3000, mixture), 'frame': (80, 800, frame)}
REQUIRED = {'LS': 100, 'JJ': 100, 'JK': 100, 'LK': 100, 'J0': 30, 'unknown-ancestors': 30, 'mixtures': 80, 'rows': 150,
            'check:kept': 300}
