import os
import shutil
import tempfile

import c17
import lib
import oracle as o
from c19 import scratch
from lib import Fs, Spec, fk

ID = 'C20'
RULE = ('Each case builds 2-9 levels (J up to 39/2, any notation, sometimes with transitions of various kinds already '
        'there), calls one of the bulk operations with random arguments and compares the complete list of transitions '
        'with the list computed from the quantum numbers and the table.')
ASSUMPTIONS = ['Transitions of a level with itself are not counted when populating the transitions between levels.',
               'J is at most 39/2, frequencies in a table are quantities and form no closed loop.']


def names(atom, inner=False):
    out = {}
    for t in atom.transitions.values():
        k = frozenset((t.E_1.name, t.E_2.name))
        if len(k) == 2 or inner:
            assert k not in out
            out[k] = t
    return out


def hz(q):
    return None if q is None else float(q.to('Hz').magnitude)


def state(t):
    return (hz(t.A), None if t.set_freq is None else hz(t.set_freq), t.alias, t.E_1, t.E_2, t.name)


def wanted(spec, present, allowed):
    out = set()
    for i in present:
        for j in present:
            if i < j and any(a and b for a, b in zip(lib.pair_kinds(spec.levels[i], spec.levels[j]), allowed)):
                out.add(frozenset((spec.levels[i]['name'], spec.levels[j]['name'])))
    return out


def prepare(rng, m, **kw):
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    same = rng.random() < 0.8
    spec = Spec(rng, nlev=kw.pop('nlev', (2, 9)), I=[0, 0, 1, 2, 3], Jmax=rng.choice([4, 4, 8, 39]), hf=0.5, B=0.4,
                same_statistics=same, style='LS' if kw else None,
                energies=lambda r, i: (i + 1) * 1e14 + r.uniform(0, 5e13))
    rng.shuffle(spec.levels)
    atom, levels = spec.build(rng, m, attach='add')
    return spec, atom, levels


def existing(rng, m, spec, atom, levels):
    """some transitions that are there beforehand; {pair: (transition, state)}"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    n = len(levels)
    pairs = [(i, j) for i in range(n) for j in range(i, n)]
    rng.shuffle(pairs)
    setf = False
    for i, j in pairs[:rng.choice([0, 0, 1, 2, 4])]:
        A = None if rng.random() < 0.3 else lib.logu(rng, 1, 1e8) * tk.Hz
        t = atom.add_transition(Transition(*rng.sample([levels[i], levels[j]], 2), A=A))
        if rng.random() < 0.3:
            t.alias = f't{i}{j}'
        kd = lib.pair_kinds(spec.levels[i], spec.levels[j])
        if any(kd) and (spec.I + 1) * (spec.levels[i]['J'] + 1) < 60 and rng.random() < 0.5:
            t.subtransitions()
        if i != j and not setf and rng.random() < 0.4:
            setf = True
            t.freq = t.freq + 1e9 * tk.Hz
        m.op('existing', i, j, hz(A))
        m.seen('preexisting')
    return {k: (t, state(t), None)
            for k, t in names(atom, True).items()}


def untouched(m, atom, old, E, what):
    now = names(atom, True)
    for k, (t, s, _) in old.items():
        m.same(now.get(k), t, 'kept', f'{what}: {set(k)}')
        m.eq(state(t), s, 'kept-values', f'{what}: {t.name}')
    if E is not None:
        m.eq([e.level_Hz for e in atom.levels.values()], E, 'energies-kept', what)


def populate(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import EnergyLevel
    spec, atom, levels = prepare(rng, m)
    present = list(range(len(levels)))
    before = set()
    old = existing(rng, m, spec, atom, levels)
    before = {k for k in old if len(k) == 2}
    for rnd in range(rng.randint(1, 3)):
        if len(present) > 2 and rng.random() < 0.15:
            i = rng.choice(present)
            present.remove(i)
            nm = spec.levels[i]['name']
            del atom.levels[nm]
            old = {k: v for k, v in old.items() if nm not in k}
            before = {k for k in before if nm not in k}
            m.op('delete', i)
        E = [e.level_Hz for e in atom.levels.values()]
        allowed = tuple(rng.random() < 0.6 for _ in range(3))
        how = rng.randrange(4)
        m.op('populate', allowed, how)
        if how == 0:
            allowed = (True, True, True)
            atom.populate_transitions()
        elif how == 1:
            atom.populate_transitions(allowed)
        elif how == 2:
            atom.populate_transitions(allowed=list(allowed))
        else:
            atom.populate_transitions(allowed=allowed)
        want = before | wanted(spec, present, allowed)
        now = names(atom)
        m.ok(set(now) == want, 'pairs',
             lambda: f'{allowed}: too many {[set(k) for k in set(now) - want][:2]}, missing {[set(k) for k in want - set(now)][:2]}')
        m.seen('pairs', len(want))
        untouched(m, atom, old, E, 'populate')
        for k in set(now) - set(old):
            t = now[k]
            a, b = sorted((spec.levels[i] for i in present if spec.levels[i]['name'] in k), key=lambda l: l['name'])
            m.ok(hz(t.A) is None and t.set_freq is None, 'fresh', t.name)
            m.eq(tuple(map(bool, t.allowed_types)), lib.pair_kinds(a, b), 'kinds', t.name)
            m.ok({id(t.E_1), id(t.E_2)} == {id(atom.levels[n]) for n in k}, 'joins', t.name)
            m.same(atom.transitions[tuple(rng.sample(sorted(k), 2))], t, 'lookup', t.name)
            m.close(t.freq.to('Hz').magnitude, abs(t.E_1.level_Hz - t.E_2.level_Hz), 'freq', t.name)
        if now and rng.random() < 0.5:
            # what was populated works like any other transition
            t = rng.choice(list(now.values()))
            if any(t.allowed_types) and (spec.I + 1) * (t.E_1.term.J + 1) < 30:
                t.A = 1e6 * tk.Hz
                hp, lead = lib.hf_pairs(spec.I, *(next(l for l in spec.levels if l['name'] == e.name)
                                                  for e in (t.E_1, t.E_2)))
                got = {(lib.dbl(s.E_1.term.F), lib.dbl(s.E_2.term.F)) for s in t.values()}
                m.ok(all(p in got for p, rs in hp.items() if lead in rs) and all(hp[p] for p in got), 'sub-pairs', t.name)
        if rng.random() < 0.4:
            # existing transitions with new levels joined later
            g = lib.level_term(rng, 20 + rnd, rng.choice([0, 1, 2, 3, 4]), style='LS')
            g.update(E=rng.uniform(0, 1e15), lande=1.0, A=0.0, Bq=0.0, C=0.0, alias=None, idx=99)
            g['name'] = f'{g["conf"]} {g["term"]}{o.frac(g["J"])}'
            spec.levels.append(g)
            present.append(len(spec.levels) - 1)
            atom.add_level(Spec.level(rng, g))
        before = set(names(atom))
        old = {k: (t, state(t), None) for k, t in names(atom, True).items()}
        m.state(allowed, len(present), len(want))


def internal(rng, m):
    spec, atom, levels = prepare(rng, m)
    old = existing(rng, m, spec, atom, levels)
    if rng.random() < 0.3:
        atom.populate_transitions((False, True, False))
        old = {k: (t, state(t), None) for k, t in names(atom, True).items()}
    E = [e.level_Hz for e in atom.levels.values()]
    for _ in range(rng.choice([1, 1, 2])):
        atom.populate_internal_transitions()
        now = names(atom, True)
        mine = [k for k in now if len(k) == 1]
        m.eq(sorted(min(k) for k in mine), sorted(e.name for e in levels), 'one-each')
        m.eq({k for k in now if len(k) == 2}, {k for k in old if len(k) == 2}, 'nothing-else')
        for e, l in zip(levels, spec.levels):
            t = atom.transitions[e.name, e.name]
            m.ok(t.E_1 is e and t.E_2 is e and t.freq_Hz == 0, 'self', t.name)
            if l['J'] and spec.I and (spec.I + 1) * (l['J'] + 1) < 40:
                want = {tuple(sorted(p)) for p, rs in lib.hf_pairs(spec.I, l, l)[0].items() if 1 in rs}
                got = {tuple(sorted((lib.dbl(s.E_1.term.F), lib.dbl(s.E_2.term.F)))) for s in t.values()}
                m.eq(got, want, 'internal-pairs', t.name)
                m.seen('internal-subs', len(got))
        m.seen('internal', len(mine))
        untouched(m, atom, {k: v for k, v in old.items() if len(k) == 2}, E, 'internal')


def jval(rng, J):
    return rng.choice([J / 2, J / 2, o.frac(J), str(J / 2)])


def rows_for(rng, m, spec, quantities=True, p_missing=0.3, freqs=True):
    """random table rows: [dict(l, u, freq, A)] with l, u descriptions of levels (maybe unknown to the atom)"""
    import atomtoolkit as tk
    from c14 import quantity
    n = len(spec.levels)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    rng.shuffle(pairs)
    comp = list(range(n))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    rows = []
    for i, j in pairs[:rng.randint(1, 8)]:
        li, lj = sorted((spec.levels[i], spec.levels[j]), key=lambda l: l['E'])
        f = None
        if freqs and rng.random() < 0.5 and find(i) != find(j):
            comp[find(i)] = find(j)
            f = lj['E'] - li['E'] + lib.signed(rng, 1e3, 1e11)
        A = None if rng.random() < 0.3 else lib.logu(rng, *rng.choice([(1, 1e8), (1, 1e8), (1e-8, 1)]))
        rows.append(dict(l=li, u=lj, f=f, A=A, known=True))
    for _ in range(rng.randint(0, 4) if p_missing else 0):
        a = dict(rng.choice(spec.levels))
        b = dict(rng.choice(spec.levels))
        x = rng.choice([a, b])
        how = rng.randrange(3)
        if how == 0:
            x['conf'] = x['conf'] + '2'
        elif how == 1:
            x['term'] = x['term'] + 'X' if not x['term'].endswith('*') else x['term'][:-1]
        else:
            x['J'] = x['J'] + 2
        a_or = f'{x["conf"]} {x["term"]}{o.frac(x["J"])}'
        if a_or in [l['name'] for l in spec.levels]:
            continue
        rows.insert(rng.randint(0, len(rows)), dict(l=a, u=b, f=5e14, A=1e6, known=False))
        m.seen('unknown-rows')
    return rows


def table(rng, rows):
    import pandas as pd
    from c14 import quantity
    from c18 import quantity as rate
    d = {k: [] for k in ('conf_l', 'term_l', 'j_l', 'conf_u', 'term_u', 'j_u', 'freq', 'A')}
    for r in rows:
        for s in 'lu':
            d['conf_' + s].append(r[s]['conf'])
            d['term_' + s].append(r[s]['term'])
            d['j_' + s].append(jval(rng, r[s]['J']))
        d['freq'].append(None if r['f'] is None else quantity(rng, r['f']))
        d['A'].append(None if r['A'] is None else rate(rng, r['A']))
    df = pd.DataFrame({k: pd.Series(v, dtype=object) for k, v in d.items()})
    if rng.random() < 0.5:
        df.index = rng.sample(range(100), len(rows))
    return df


def check_rows(m, atom, rows, old, what):
    want = {k for k in old if len(k) == 2}
    for r in rows:
        if r['known']:
            k = frozenset((r['l']['name'], r['u']['name']))
            want.add(k)
    now = names(atom)
    m.ok(set(now) == want, 'row-pairs', lambda: f'{what}: {[set(k) for k in set(now) ^ want][:3]}')
    scale = max(abs(e.level_Hz) for e in atom.levels.values())
    for r in rows:
        if not r['known']:
            m.seen('skipped-rows')
            continue
        t = now[frozenset((r['l']['name'], r['u']['name']))]
        if r['f'] is not None:
            m.ok(abs(t.freq.to('Hz').magnitude - r['f']) <= 1e-13 * scale + 1e-3, 'row-freq',
                 lambda: f'{what}: {t.name}: {t.freq}, row says {r["f"]}')
            m.ok(t.set_freq is not None, 'row-freq', t.name)
            m.seen('row-freqs')
        if r['A'] is None:
            m.ok(t.A is None, 'row-A', t.name)
        else:
            m.close(hz(t.A), r['A'], 'row-A', t.name, rel=1e-12)
        m.seen('rows')


def from_table(rng, m):
    spec, atom, levels = prepare(rng, m)
    rows = rows_for(rng, m, spec)
    df = table(rng, rows)
    m.op('rows', *[(r['l']['name'], r['u']['name'], r['f'], r['A']) for r in rows])
    E = [e.level_Hz for e in levels]
    copy = df.copy()
    atom.populate_transitions_df(df)
    check_rows(m, atom, rows, {}, 'table')
    m.eq(len(atom.levels), len(levels), 'no-new-levels')
    tied = {x for r in rows if r['known'] and r['f'] for x in (r['l']['name'], r['u']['name'])}
    for e, x in zip(levels, E):
        if e.name not in tied:
            m.eq(e.level_Hz, x, 'untied-kept', e.name)
    m.ok(copy.astype(str).equals(df.astype(str)), 'table-kept', 'the table was changed')
    m.state(len(rows), len(tied))


def level_table(rng, spec):
    import pandas as pd
    import atomtoolkit as tk
    n = len(spec.levels)
    df = pd.DataFrame({
        'Level (cm-1)': pd.Series([l['E'] / o.C_LIGHT / 100 for l in spec.levels]).astype('pint[cm**-1]'),
        'J': [o.frac(l['J']) for l in spec.levels],
        'Lande': [l['lande'] if l['lande'] is not None else float('nan') for l in spec.levels],
        'Configuration': [l['conf'] for l in spec.levels], 'Term': [l['term'] for l in spec.levels],
        'Percentage': [100.0] * n, 'Configuration_2': [None] * n, 'Term_2': [''] * n, 'Percentage_2': [float('nan')] * n})
    df['Level (Hz)'] = df['Level (cm-1)'].pint.to('Hz')
    return df


def transition_file(rng, m, d, rows):
    """the rows as a file read back with load_transition_data"""
    import math

    import pandas as pd
    import atomtoolkit as tk
    from atomtoolkit import IO
    with_A, with_f = rng.random() < .8, rng.random() < .5
    cols_ = {'conf_l': 'lower conf', 'term_l': 'lower term', 'j_l': 'Jl', 'conf_u': 'upper conf', 'term_u': 'upper term',
             'j_u': 'Ju'}
    if rng.random() < .3:
        cols_ = {k: k for k in cols_}                  # the file uses the names itself
    fraction = rng.random() < .5
    data = {c: [r[k[-1]][{'c': 'conf', 't': 'term', 'j': 'J'}[k[0]]] for r in rows] for k, c in cols_.items()}
    for k in (cols_['j_l'], cols_['j_u']):
        data[k] = [o.frac(x) if fraction else x / 2 for x in data[k]]
    for r in rows:
        r['A'] = (r['A'] or 1e6) if with_A else None
        r['f'] = r['f'] if with_f else None
    if with_A:
        cols_[rng.choice(['A', 'A_coeff'])] = 'Aki'
    if with_f:
        cols_[rng.choice(['freq', 'frequency'])] = 'f (THz)'
    # columns that are not asked for
    data['Aki'] = [r['A'] / 1e6 if with_A else 12.5 for r in rows]
    data['f (THz)'] = [r['f'] / 1e12 if r['f'] is not None else '' for r in rows]
    data['unrelated'] = ['x'] * len(rows)
    path = os.path.join(d, 't.csv')
    order = list(data)
    rng.shuffle(order)
    sep = rng.choice([',', ',', ';'])
    pd.DataFrame({k: data[k] for k in order}).to_csv(path, index=False, sep=sep)
    tdf = IO.load_transition_data(path, columns=dict(cols_), **({} if sep == ',' else {'sep': sep}))
    m.eq(len(tdf), len(rows), 'csv-rows')
    for i, r in enumerate(rows):
        x = tdf.iloc[i]
        for s_ in 'lu':
            m.eq((x['conf_' + s_], x['term_' + s_]), (r[s_]['conf'], r[s_]['term']), 'csv-levels')
        if with_A:
            m.close(x['A'].to('Hz').magnitude, r['A'], 'csv-A', rel=1e-9)
        else:
            m.ok(x['A'] is None, 'csv-A', lambda: f'{x["A"]} without a column')
        f = x['freq']
        if r['f'] is None:
            m.ok(f is None or math.isnan(f), 'csv-freq', lambda: f'{f} without a value')
        else:
            m.close(float(f), r['f'] / 1e12, 'csv-freq', rel=1e-12)
            m.seen('csv-freqs')
    if with_f:                                          # the file has bare numbers: in THz
        tdf['freq'] = pd.Series([None if r['f'] is None else tk.Q_(float(x), 'THz') for r, x in zip(rows, tdf['freq'])],
                                dtype=object)
    m.seen('csv-tables')
    return tdf


def csv_and_full(rng, m):
    """load_transition_data, generate_full_from_dataframe"""
    import pandas as pd
    import atomtoolkit as tk
    from atomtoolkit import IO
    spec = Spec(rng, nlev=(2, 7), I=[0, 1, 2, 3], Jmax=5, hf=0.7, B=0.4, lande=0.8, style='LS', aliases=0,
                energies=lambda r, i: (i + 1) * 1e14 + r.uniform(0, 5e13))
    rng.shuffle(spec.levels)
    df = level_table(rng, spec)
    d = scratch()
    try:
        kw, rows = {}, None
        mode = rng.choice(['none', 'df', 'df', 'csv', 'null'])
        if mode in ('df', 'csv'):
            rows = rows_for(rng, m, spec)
            kw['transitions_df'] = table(rng, rows)
        if mode == 'csv':
            kw['transitions_df'] = transition_file(rng, m, d, rows)
        elif mode == 'null':
            kw['transitions_df'] = None
        if rng.random() < 0.5:
            hf = [(l['name'], l['A'], l['Bq'], l['C']) for l in spec.levels if rng.random() < 0.8]
            hf.insert(rng.randint(0, len(hf)), ('9g 2G9/2', 1e9, 0, 0))
            kw['hf_csv'] = os.path.join(d, 'h.csv')
            with open(kw['hf_csv'], 'w', encoding='utf-8') as f:
                for n, a, b, c in hf:
                    f.write(f'"{n}",{a} Hz,{b / 1e6} megahertz,{c} hertz\n')
        else:
            hf = []
            if rng.random() < 0.3:
                kw['hf_csv'] = rng.choice([None, os.path.join(d, 'absent.csv')])
        if spec.B and rng.random() < 0.5:
            kw['B'] = spec.B * tk.G
        m.op('full', mode, sorted(kw), spec.I, *[l['name'] for l in spec.levels])
        atom = IO.generate_full_from_dataframe(df, 'Z', spec.I / 2, **kw)
        m.eq(sorted(e.name for e in atom.levels.values()), sorted(l['name'] for l in spec.levels), 'full-levels')
        m.ok(abs(atom.B.to('G').magnitude - (spec.B if 'B' in kw else 0)) <= 1e-9 * abs(spec.B), 'full-B')
        m.eq(float(atom.I), spec.I / 2, 'full-I')
        have = {n: v for n, *v in hf}
        for l in spec.levels:
            e = atom.levels[l['name']]
            for x, y in zip((e.hfA_Hz, e.hfB_Hz, e.hfC_Hz), have.get(l['name'], (0, 0, 0))):
                m.close(float(x), y, 'full-hf', l['name'], rel=1e-12)
        if rows is not None:
            check_rows(m, atom, rows, {}, mode)
        else:
            want = wanted(spec, range(len(spec.levels)), (True, False, False) if mode == 'none' else (True, True, True))
            now = set(names(atom))
            m.ok(now == want, 'full-pairs', lambda: f'{mode}: {[set(k) for k in now ^ want][:3]}')
        inner = [min(k) for k in names(atom, True) if len(k) == 1]
        m.eq(sorted(inner), sorted(l['name'] for l in spec.levels), 'full-internal')
        m.seen('full-' + mode)
    finally:
        shutil.rmtree(d)


SCENARIOS = {'populate': (160, 1600, populate), 'internal': (60, 500, internal), 'table': (160, 1500, from_table),
             'full': (90, 800, csv_and_full)}
REQUIRED = {'preexisting': 100, 'pairs': 500, 'internal': 200, 'rows': 300, 'skipped-rows': 80, 'row-freqs': 100,
            'full-none': 8, 'full-df': 10, 'csv-tables': 8, 'csv-freqs': 8, 'full-null': 8}
