import itertools
import random

import c19
import lib
from engine import Skip
from lib import Fs, Ms, Spec, fk, mk, num

ID = 'C26'
RULE = ('Each case gives energies, transition frequencies, hyperfine constants, rates and fields in random units (multiples '
        'of hertz, wavenumbers, vacuum wavelengths, photon energies, multiples of gauss) to constructors, setters and files '
        'and compares what is then read back, in every unit, with the exact conversion; and builds one atom twice, once in '
        'hertz and gauss and once in random units, by the same random script, and compares all answers of both.')
ASSUMPTIONS = ['Zero cannot be given as a wavelength.', 'Fields are given in multiples of gauss (tesla is refused).',
               'A coefficients are given as rates (1/s or multiples of Hz).']
H, C, EV = 6.62607015e-34, 299792458.0, 1.602176634e-19
LIN = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12, '1/cm': 100 * C, '1/m': C, 'eV': EV / H, 'meV': EV / H / 1e3,
       'J': 1 / H, '1/s': 1.0, 'PHz': 1e15}
WL = {'nm': 1e-9, 'um': 1e-6, 'm': 1.0, 'angstrom': 1e-10, 'cm': 1e-2}
FIELD = {'G': 1.0, 'gauss': 1.0, 'mG': 1e-3, 'kG': 1e3, 'uG': 1e-6}
RATE = {'Hz': 1.0, '1/s': 1.0, 'kHz': 1e3, 'MHz': 1e6, '1/us': 1e6, '1/ms': 1e3, 'GHz': 1e9}
REL = 4e-15


def to(hz, u):
    return hz / LIN[u] if u in LIN else C / hz / WL[u]


def q(rng, hz, m=None, units=None):
    """the same frequency in a random unit and spelling"""
    import atomtoolkit as tk
    u = rng.choice(units or (list(LIN) + (list(WL) if hz else [])))
    if m:
        m.seen('unit:' + u)
    v = to(hz, u)
    k = rng.randrange(3)
    if k == 0:
        return tk.Q_(v, u), u
    if k == 1:
        return v * tk.ureg(u), u
    return tk.Q_(f'{v!r} {u}') if v >= 0 else tk.Q_(v, tk.ureg.Unit(u)), u


def fieldq(rng, g):
    import atomtoolkit as tk
    u = rng.choice(list(FIELD))
    return tk.Q_(g / FIELD[u], u)


def rateq(rng, a):
    import atomtoolkit as tk
    u = rng.choice(list(RATE))
    return tk.Q_(a / RATE[u], u)


def value(rng, signed=True):
    c = rng.random()
    if c < .1:
        return 0.0
    v = lib.logu(rng, 1, 1e16)
    return -v if signed and rng.random() < .35 else v


def readback(rng, m, got, hz, what, abs_=0.0):
    """a quantity of the library against hertz, in every unit"""
    m.close(float(got.to('Hz').magnitude), hz, 'hertz', what, rel=REL, abs_=abs_)
    for u in LIN:
        m.close(float(got.to(u).magnitude), to(hz, u), 'unit', lambda: f'{what} in {u}', rel=2 * REL, abs_=abs_ / LIN[u])
    if hz and abs_ < 1e-9 * abs(hz):
        for u in WL:
            m.close(float(got.to(u).magnitude), to(hz, u), 'unit', lambda: f'{what} in {u}', rel=2 * REL + abs_ / abs(hz))
    m.seen('readbacks')


def level(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, EnergyLevel
    from atomtoolkit.term import Term
    spec = Spec(rng, nlev=(1, 1), I=[0, 1, 2, 3, 5], Jmax=5, B=0.5, hf=1, aliases=0)
    l = spec.levels[0]
    E, A, Bq, Cq = value(rng), value(rng), value(rng), value(rng)
    args, kw = [], {}
    (qe, u), qa, qb, qc = q(rng, E, m), q(rng, A, m)[0], q(rng, Bq, m)[0], q(rng, Cq, m)[0]
    m.op('level', E, u, A, Bq, Cq)
    given = {}
    if rng.random() < .8:
        given = dict(hfA=qa, hfB=qb, hfC=qc)
    e = EnergyLevel(Term(l['conf'], l['term'], num(rng, l['J'])), qe, lande=l['lande'], **given)
    readback(rng, m, e.level, E, f'level given as {qe}')
    m.close(float(e.level_Hz), E, 'level-Hz', f'{qe}', rel=REL)
    readback(rng, m, e.shift, E, f'shift of {qe}')
    if given:
        for k, v in (('hfA', A), ('hfB', Bq), ('hfC', Cq)):
            readback(rng, m, getattr(e, k), v, f'{k} given as {given[k]}')
            m.close(float(getattr(e, k + '_Hz')), v, 'level-Hz', k, rel=REL)
    else:
        for k in ('hfA', 'hfB', 'hfC'):
            m.close(float(getattr(e, k).to('Hz').magnitude), 0.0, 'default', k)
    # setters
    for _ in range(2):
        E = value(rng)
        qe = q(rng, E, m)[0]
        m.op('set', E)
        e.level = qe
        readback(rng, m, e.level, E, f'level set to {qe}')
        k, v = rng.choice(['hfA', 'hfB', 'hfC']), value(rng)
        qv = q(rng, v, m)[0]
        setattr(e, k, qv)
        readback(rng, m, getattr(e, k), v, f'{k} set to {qv}')
        # reading in a unit and writing that back changes nothing
        u = rng.choice([x for x in LIN] + (list(WL) if E else []))
        e.level = e.level.to(u)
        readback(rng, m, e.level, E, f'level written back in {u}', abs_=3 * REL * abs(E))
    # something else is refused and changes nothing
    import pint
    bad = tk.Q_(rng.choice([0.0, 1.0, 5.0]), rng.choice(['kg', 'K', 'G', 'A', 's']))
    for k in ('level', 'hfA', 'hfB', 'hfC'):
        old = float(getattr(e, k).to('Hz').magnitude)
        m.raises(pint.DimensionalityError, lambda: setattr(e, k, bad), 'dimension', f'{k} = {bad}')
        m.eq(float(getattr(e, k).to('Hz').magnitude), old, 'dimension', f'{k} after {bad}')
    # the field
    g = lib.signed(rng, 1e-9, 1e6, .1)
    qf = fieldq(rng, g)
    atom = Atom('X', I=num(rng, spec.I), B=qf) if rng.random() < .5 else Atom('X', num(rng, spec.I))
    if rng.random() < .5:
        g = lib.signed(rng, 1e-9, 1e6, .1)
        qf = fieldq(rng, g)
    atom.B = qf
    m.close(float(atom.B_gauss), g, 'field', str(qf), rel=REL)
    for u, f in FIELD.items():
        m.close(float(atom.B.to(u).magnitude), g / f, 'field', f'{qf} in {u}', rel=2 * REL)
    # sublevels move the level by as much as they are moved
    for k in ('A', 'Bq', 'C'):
        l[k] = max(-1e9, min(1e9, l[k]))
    e.hfA, e.hfB, e.hfC = l['A'] * tk.Hz, l['Bq'] * tk.Hz, l['C'] * tk.Hz
    atom.B = spec.B * tk.G
    atom.add_level(e)
    l['E'] = E
    F = rng.choice(Fs(spec.I, l['J']))
    M = rng.choice(Ms(F))
    x, shift = (e[fk(F)], spec.hf_shift(l, F)) if rng.random() < .5 else \
        (e[fk(F)][mk(M)], spec.hf_shift(l, F) + spec.z_shift(l, F, M))
    new = value(rng)
    qn = q(rng, new, m)[0]
    x.level = qn
    tol = spec.tol(l) + 1e-14 * abs(new) + 3e-9 * abs(shift)
    readback(rng, m, x.level, new, f'{x.name} set to {qn}', abs_=tol)
    m.ok(abs(float(e.level.to('Hz').magnitude) - (new - shift)) <= tol, 'sublevel', lambda: f'{x.name} set to {qn}')
    m.state(u)


def atoms(rng, m):
    """one script, two atoms: hertz and gauss, or any units"""
    import pint
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, EnergyLevel, Transition
    from atomtoolkit.term import Term
    spec = Spec(rng, nlev=(2, 5), I=[0, 1, 2, 3], Jmax=4, B=0.7, hf=.8, aliases=0,
                energies=lambda r, i: (i + 1) * 1.5e14 + r.uniform(0, 5e13) - (4e14 if r.random() < .2 else 0))
    for l in spec.levels:
        for k in ('A', 'Bq', 'C'):
            l[k] = max(-1e9, min(1e9, l[k]))
    spec.B = max(-1e3, min(1e3, spec.B))
    pairs = [p for p in itertools.combinations(range(len(spec.levels)), 2)
             if any(lib.pair_kinds(spec.levels[p[0]], spec.levels[p[1]]))]
    if not pairs:
        raise Skip()
    pairs = rng.sample(pairs, min(len(pairs), rng.randint(1, 3)))
    plan = []
    for n, (i, j) in enumerate(pairs):
        f = lib.logu(rng, 1e13, 1e15) if rng.random() < .5 else None
        plan.append(('new', i, j, rng.choice([None, lib.logu(rng, 1, 1e9)]), f if n == 0 else None, rng.randrange(3)))
    for _ in range(rng.randint(1, 5)):
        i = rng.randrange(len(spec.levels))
        k = rng.choice(['set', 'set', 'set-sub', 'B', 'A', 'hf', 'move'])
        p = rng.choice(pairs)
        if k in ('set', 'set-sub'):
            # one transition only: no loops of constraints
            p = pairs[0]
            plan.append((k, *p, rng.uniform(-1, 1) * 1e11 if k == 'set-sub' else lib.logu(rng, 1e13, 1e15), rng.randrange(10 ** 6)))
        elif k == 'B':
            plan.append((k, lib.signed(rng, 1e-2, 1e3, .1)))
        elif k == 'A':
            plan.append((k, *p, lib.logu(rng, 1, 1e9)))
        elif k == 'hf':
            plan.append((k, i, rng.choice('ABC'), lib.signed(rng, 1e5, 1e9)))
        elif i not in pairs[0]:
            plan.append((k, i, lib.signed(rng, 1e12, 9e14)))
    m.op('script', spec.I, [l['name'] for l in spec.levels], plan)

    def spoil(atom, es):
        """quantities of another dimension: each is refused, and leaves the atom like its twin"""
        bad = tk.Q_(rng.choice([0.0, 1.0, 3e14]), rng.choice(['kg', 'K', 'A', 's', 'G']))
        tops = list(atom.transitions.values())
        x, y = (es[i] for i in rng.choice(pairs))
        what = rng.choice(['level', 'new'] + ['freq', 'set_frequency', 'A', 'sub'] * bool(tops))
        if what == 'level':
            x = rng.choice([x, x.sublevels()[0], x.sublevels()[0].sublevels()[-1]])
            f = lambda: setattr(x, 'level', bad)
        elif what == 'new':
            if (x.name, y.name) in atom.transitions.keys() or (y.name, x.name) in atom.transitions.keys():
                return
            kw = rng.choice([dict(A=bad), dict(freq=bad)])
            f = lambda: atom.add_transition(Transition(x, y, **kw))
        else:
            t = rng.choice(tops)
            if what == 'sub' and len(t):
                t, what = t.subtransitions()[-1], 'freq'
            f = (lambda: t.set_frequency(bad)) if what == 'set_frequency' else \
                (lambda: setattr(t, 'A' if what == 'A' else 'freq', bad))
        m.raises(pint.DimensionalityError, f, 'refused', f'{what} {bad}')
        m.seen('refused-' + what)

    def make(fq, bq, aq, spoil=lambda *_: None):
        atom = Atom('X', I=spec.I / 2, B=bq(spec.B))
        es = []
        for l in spec.levels:
            e = EnergyLevel(Term(l['conf'], l['term'], l['J'] / 2), fq(l['E']), lande=l['lande'], hfA=fq(l['A']),
                            hfB=fq(l['Bq']), hfC=fq(l['C']))
            atom.add_level(e)
            es.append(e)
        for s in plan:
            if rng.random() < 0.4:
                spoil(atom, es)
            k = s[0]
            if k in ('new', 'set', 'set-sub', 'A') and k != 'new':
                t = atom.transitions[es[s[1]].name, es[s[2]].name]
            if k == 'new':
                kw = {}
                if s[3] is not None:
                    kw['A'] = aq(s[3])
                if s[4] is not None:
                    kw['freq'] = fq(s[4])
                atom.add_transition(Transition(es[s[1]], es[s[2]], **kw))
            elif k == 'set':
                if s[4] % 2:
                    t.set_frequency(fq(s[3]))
                else:
                    t.freq = fq(s[3])
            elif k == 'set-sub':
                subs = t.subtransitions()
                if subs:
                    h = subs[s[4] % len(subs)]
                    if s[4] % 3 == 0 and len(h):
                        h = h.subtransitions()[s[4] // 7 % len(h.subtransitions())]
                    h.set_frequency(fq(float(h.freq.to('Hz').magnitude) + s[3]))
            elif k == 'B':
                atom.B = bq(s[1])
            elif k == 'A':
                t.A = aq(s[3])
            elif k == 'hf':
                setattr(es[s[1]], 'hf' + s[2], fq(s[3]))
            elif k == 'move':
                es[s[1]].level = fq(s[2])
        return atom

    ref = make(lambda f: tk.Q_(f, 'Hz'), lambda b: tk.Q_(b, 'G'), lambda a: tk.Q_(a, 'Hz'))
    alt = make(lambda f: q(rng, f, m)[0], lambda b: fieldq(rng, b), lambda a: rateq(rng, a), spoil)
    scale = max(abs(float(e.level.to('Hz').magnitude)) for e in ref.levels.values()) + 1e15
    tol = 1e-13 * scale

    def hz(x):
        return float(x.to('Hz').magnitude)
    for a, b in zip(ref.levels.values(), alt.levels.values()):
        m.eq(b.name, a.name, 'same-levels')
        for h, g in [(a, b)] + list(zip(a.values(), b.values())) + \
                [(z, y) for h, g in zip(a.values(), b.values()) for z, y in zip(h.values(), g.values())]:
            m.close(hz(g.level), hz(h.level), 'same-level', h.name, rel=0, abs_=tol)
            m.close(hz(g.shift), hz(h.shift), 'same-shift', h.name, rel=1e-12, abs_=tol if h is a else 1e-3)
    for a, b in zip(ref.transitions.values(), alt.transitions.values()):
        m.eq(b.name, a.name, 'same-transitions')
        m.close(hz(b.freq), hz(a.freq), 'same-frequency', a.name, rel=0, abs_=tol)
        m.close(float(b.wl.to('nm').magnitude), C / hz(a.freq) * 1e9, 'wavelength', a.name, rel=2 * tol / hz(a.freq) + 1e-14)
        m.ok((a.A is None) == (b.A is None) and (a.A is None or abs(hz(a.A) - hz(b.A)) <= 1e-13 * hz(a.A)), 'same-A', a.name)
        m.ok((a.set_freq is None) == (b.set_freq is None) and
             (a.set_freq is None or abs(hz(a.set_freq) - hz(b.set_freq)) <= tol), 'same-constraint', a.name)
        m.eq(set(b.keys()), set(a.keys()), 'same-subs', a.name)
        for k in a.keys():
            s, t = a[k], b[k]
            m.close(hz(t.freq), hz(s.freq), 'same-frequency', s.name, rel=0, abs_=tol)
            m.ok(s.A is None and t.A is None or abs(hz(s.A) - hz(t.A)) <= 1e-12 * hz(s.A) + 1e-300, 'same-A', s.name)
    for a, b in zip(ref.levels.values(), alt.levels.values()):
        outs = [out_rates(ref, a), out_rates(alt, b)]
        m.eq([type(x).__name__ if isinstance(x, Exception) else None for x in outs][0],
             [type(x).__name__ if isinstance(x, Exception) else None for x in outs][1], 'same-decay', a.name)
        if not isinstance(outs[0], Exception):
            m.ok(abs(outs[0] - outs[1]) <= 1e-12 * abs(outs[0]), 'same-decay', lambda: f'{a.name}: {outs}')
    m.seen('twins')


def out_rates(atom, e):
    try:
        return float(atom.state_lifetime(e).to('s').magnitude)
    except Exception as x:
        return x


def frames(rng, m):
    """tables and files: quantities in any unit"""
    import csv
    import os
    import shutil
    import atomtoolkit as tk
    import numpy as np
    import pandas as pd
    from atomtoolkit import IO
    from atomtoolkit.atom import EnergyLevel
    spec = Spec(rng, nlev=(1, 4), I=[0, 1, 2], Jmax=4, B=0, hf=0, aliases=0)
    atom, levels = spec.build(rng, m)
    d = c19.scratch()
    try:
        path = os.path.join(d, 'hf.csv')
        want, rows = {}, []
        for l in spec.levels:
            v = [value(rng) for _ in 'ABC']
            row = [l['name']]
            for x in v:
                u = rng.choice(list(LIN) if not x else list(LIN) + list(WL))
                row.append(f'{to(x, u)!r} {u}')
            rows.append(row)
            want[l['name']] = v
        m.op('csv', rows)
        with open(path, 'w', newline='', encoding='utf-8') as f:
            csv.writer(f).writerows(rows)
        IO.apply_hf_csv(atom, path)
        for e in levels:
            for k, v in zip(('hfA', 'hfB', 'hfC'), want[e.name]):
                readback(rng, m, getattr(e, k), v, f'{k} of {e.name} from {rows}')
        IO.generate_hf_csv(atom, path)
        fresh, fl = spec.build(rng)
        IO.apply_hf_csv(fresh, path)
        for e in fl:
            for k, v in zip(('hfA', 'hfB', 'hfC'), want[e.name]):
                m.close(float(getattr(e, k).to('Hz').magnitude), v, 'file', e.name, rel=1e-14)
        m.seen('files')
    finally:
        shutil.rmtree(d)
    # a table whose level column is in another unit
    u = rng.choice([x for x in LIN])
    E = [value(rng) for _ in spec.levels]
    df = pd.DataFrame({'Configuration': [l['conf'] for l in spec.levels], 'Term': [l['term'] for l in spec.levels],
                       'J': [str(lib.o.frac(l['J'])) for l in spec.levels],
                       'Level (cm-1)': pd.Series([to(x, u) for x in E], dtype=f'pint[{u}]'),
                       'Percentage': 100.0,
                       'Lande': [l['lande'] if l['lande'] is not None else np.nan for l in spec.levels]})
    m.op('frame', u, E)
    for i, (l, x) in enumerate(zip(spec.levels, E)):
        e = EnergyLevel.from_dataframe(df, i)
        readback(rng, m, e.level, x, f'{l["name"]} from a table in {u}')
    m.state(u)


def tables(rng, m):
    """a transition table: every row's frequency and A in a unit of its own"""
    import pandas as pd
    import atomtoolkit as tk
    spec = Spec(rng, nlev=(2, 6), I=[0, 1, 2], Jmax=4, B=0, hf=0, aliases=0,
                energies=lambda r, i: (i + 1) * 1.5e14 + r.uniform(0, 5e13))
    atom, levels = spec.build(rng, m)
    order = rng.sample(range(len(levels)), len(levels))
    rows = []
    for x, y in zip(order, order[1:]):               # a chain: every frequency can be had
        i, j = sorted((x, y), key=lambda k: spec.levels[k]['E'])
        gap = spec.levels[j]['E'] - spec.levels[i]['E']
        rows.append((i, j, gap * rng.uniform(.9, 1.1) if rng.random() < .6 else None,
                     None if rng.random() < .3 else lib.logu(rng, 1e-3, 1e9)))
    qs = [(None if f is None else q(rng, f, m)[0], None if a is None else rateq(rng, a)) for _, _, f, a in rows]
    m.op('table', [(i, j, str(f), str(a)) for (i, j, *_), (f, a) in zip(rows, qs)])
    L = spec.levels
    cols = {'conf_l': [L[r[0]]['conf'] for r in rows], 'term_l': [L[r[0]]['term'] for r in rows],
            'j_l': [L[r[0]]['J'] / 2 for r in rows], 'conf_u': [L[r[1]]['conf'] for r in rows],
            'term_u': [L[r[1]]['term'] for r in rows], 'j_u': [L[r[1]]['J'] / 2 for r in rows],
            'freq': [x[0] for x in qs], 'A': [x[1] for x in qs]}
    atom.populate_transitions_df(pd.DataFrame({k: pd.Series(v, dtype=object) for k, v in cols.items()}))
    scale = max(abs(e.level_Hz) for e in levels)
    for i, j, f, a in rows:
        t = atom.transitions[levels[i].name, levels[j].name]
        if f is not None:
            readback(rng, m, t.freq, f, t.name, abs_=4e-15 * scale)
            readback(rng, m, t.set_freq, f, t.name, abs_=4e-15 * scale)
            m.seen('table-freqs')
        m.ok((t.A is None) == (a is None), 'table-A', t.name)
        if a is not None:
            m.close(float(t.A.to('Hz').magnitude), a, 'table-A', t.name, rel=4e-15)
    m.state('table', len(rows))


SCENARIOS = {'level': (1600, 16000, level), 'atoms': (240, 2400, atoms), 'frames': (160, 1600, frames), 'tables': (120, 1200, tables)}
REQUIRED = {'table-freqs': 60, 'readbacks': 4000, 'twins': 100, 'check:refused': 150, 'files': 50, **{f'unit:{u}': 20 for u in list(LIN) + list(WL)}}
