import csv
import os
import shutil

import lib
from c19 import scratch
from lib import Spec

ID = 'C22'
RULE = ('Each case builds an atom, exports its hyperfine constants (plain, blank, with a default A), reads the file with '
        'an independent CSV parser, edits the file (rows added, removed, reordered, units changed) and applies it to '
        'another atom with overlapping levels; constants and all other answers are compared with a shadow table.')
ASSUMPTIONS = ['Files are UTF-8; rows have four fields.']


def consts(e):
    return (float(e.hfA.to('Hz').magnitude), float(e.hfB.to('Hz').magnitude), float(e.hfC.to('Hz').magnitude))


def value(rng):
    c = rng.randrange(8)
    if c == 0:
        return 0.0
    if c == 1:
        return float(rng.randint(-10 ** 6, 10 ** 6))
    if c == 2:
        return rng.choice([1, -1]) * lib.logu(rng, 1e-9, 1e3)
    if c == 3:
        return rng.choice([1e22, -1e-7, 123456789.123456789, 1e-30, 1e300, -0.1, 1e16])
    return lib.signed(rng, 1e3, 2e10)


def everything_else(atom):
    out = {'names': list(atom.levels.keys()), 'aliases': dict(atom.levels.aliases), 'B': atom.B_gauss, 'I': atom.I}
    for e in atom.levels.values():
        out[e.name] = (e.level_Hz, e.lande, e.alias, e.term.name, [h.gF for h in e.values()], list(e.keys()))
    for t in atom.transitions.values():
        out[t.E_1.name, t.E_2.name] = (None if t.A is None else t.A.to('Hz').magnitude, t.freq_Hz, t.alias,
                                       None if t.set_freq is None else t.set_freq.to('Hz').magnitude)
    return out


def build(rng, spec, idxs, I=None):
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, Transition
    a = Atom('Name of atom', I=(spec.I if I is None else I) / 2, B=spec.B * tk.G)
    for i in idxs:
        a.add_level(Spec.level(rng, spec.levels[i]))
    ls = list(a.levels.values())
    for _ in range(2):
        x, y = rng.choice(ls), rng.choice(ls)
        if x is not y and (x.name, y.name) not in a.transitions.keys() and (y.name, x.name) not in a.transitions.keys():
            a.add_transition(Transition(x, y, A=1e6 * tk.Hz if rng.random() < .5 else None))
    if rng.random() < .3:
        for e in ls:
            len(e)
    return a


def give(rng, e, v):
    """set the constants, in some unit that is exact"""
    import atomtoolkit as tk
    for k, x in zip('ABC', v):
        if x == int(x) and abs(x) < 1e15 and rng.random() < .5:
            x = int(x)
        setattr(e, 'hf' + k, tk.Q_(x, rng.choice(['Hz', 'hertz'])))


def csvs(rng, m):
    import atomtoolkit as tk
    from atomtoolkit import IO
    spec = Spec(rng, nlev=(1, 8), I=[0, 1, 2, 3, 5], Jmax=6, hf=0.0, B=0.4, aliases=0)
    n = len(spec.levels)
    full = list(range(n))
    atom = build(rng, spec, full)
    table = {}
    for e in atom.levels.values():
        v = tuple(value(rng) if rng.random() < .8 else 0.0 for _ in range(3))
        if rng.random() < .25:
            v = (0.0,) + v[1:]
        if rng.random() < .1:
            v = (-0.0,) + v[1:]
        give(rng, e, v)
        table[e.name] = v
    m.op('constants', spec.I, table)
    d = scratch()
    here = os.getcwd()
    try:
        os.chdir(d)
        mode = rng.choice(['plain', 'plain', 'blank', 'default'])
        path = rng.choice([os.path.join(d, 'x y.csv'), 'rel.csv', os.path.join(d, 'no_extension'), None])
        kw = {}
        if mode == 'blank':
            kw['blank'] = True
            if rng.random() < .3:
                kw['def_A'] = 5 * tk.GHz
        dflt = None
        if mode == 'default':
            dflt = rng.choice([1e9, 5.0, -2.5e6, 0.0])
            kw['def_A'] = tk.Q_(dflt / 1e6, 'MHz') if rng.random() < .5 else dflt * tk.Hz
            if rng.random() < .3:
                kw['blank'] = False
        old = everything_else(atom)
        if path is not None and rng.random() < .3:
            with open(path, 'w') as f:
                f.write('junk,1 Hz,1 Hz,1 Hz\n' * 30)
        if path is None and rng.random() < .5:
            IO.generate_hf_csv(atom, **kw)
        else:
            IO.generate_hf_csv(atom, path, **kw)
        m.eq(everything_else(atom), old, 'export-changes-nothing')
        m.eq({e.name: consts(e) for e in atom.levels.values()}, table, 'export-changes-nothing', 'constants')
        fs = os.listdir(d)
        m.eq(len(fs), 1, 'one-file', fs)
        real = os.path.join(d, fs[0])
        if path is not None:
            m.ok(os.path.realpath(path) == os.path.realpath(real), 'file-name', fs[0])
        with open(real, newline='', encoding='utf-8') as f:
            rows = [r for r in csv.reader(f) if r]
        m.eq(sorted(r[0] for r in rows), sorted(table), 'each-once')
        exported = {}
        for nm, v in table.items():
            exported[nm] = (0.0,) * 3 if mode == 'blank' else (dflt,) + v[1:] if dflt is not None and v[0] == 0 else v
        for r in rows:
            for x, s in zip(exported[r[0]], r[1:]):
                m.close(float(tk.Q_(s).to('Hz').magnitude), x, 'exported', lambda: f'{mode}: {r}', rel=1e-15)
        m.seen('export-' + mode)
        # a second atom with some of the levels, in another order, with other constants
        some = rng.sample(full, rng.randint(1, n))
        other = build(rng, spec, some, I=rng.choice([0, 1, 2, 3, 5]))
        mine = {}
        for e in other.levels.values():
            v = tuple(value(rng) for _ in range(3))
            give(rng, e, v)
            mine[e.name] = v
        keep = exported
        if rng.random() < .5:
            # the file goes through another editor
            rng.shuffle(rows)
            rows = [r for r in rows if rng.random() < .8]
            keep = {r[0]: exported[r[0]] for r in rows}
            for _ in range(rng.randint(0, 3)):
                bad = rng.choice(['99g 2G9/2', '4f14.6s', 'nothing', '4f13.(2F*<7/2>).6s 3[5/2]*7/2', '  '])
                rows.insert(rng.randint(0, len(rows)), [bad, '1 GHz', '2 GHz', '3 GHz'])
                m.seen('unknown-rows')
            for r in rows:
                if r[0] in keep and rng.random() < .5 and abs(keep[r[0]][0]) < 1e20:
                    u, f = rng.choice([('GHz', 1e9), ('megahertz', 1e6), ('kHz', 1e3), ('Hz', 1), ('1/s', 1)])
                    r[1] = rng.choice(['{!r} {}', '{!r}{}'][:1]).format(keep[r[0]][0] / f, u)
            with open(real, 'w', newline='', encoding='utf-8') as f:
                csv.writer(f, quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]),
                           lineterminator=rng.choice(['\r\n', '\n'])).writerows(rows)
            m.seen('edited-files')
        ignored = [nm for nm in keep if nm not in mine]
        m.seen('ignored-rows', len(ignored))
        old = everything_else(other)
        IO.apply_hf_csv(other, real)
        m.eq(everything_else(other), old, 'apply-changes-nothing-else')
        for e in other.levels.values():
            want = keep.get(e.name, mine[e.name])
            for x, y in zip(consts(e), want):
                m.close(x, y, 'applied', lambda: f'{mode}: {e.name}: {consts(e)} expected {want}', rel=4e-15)
            m.seen('applied' if e.name in keep else 'left-alone')
            for h in e.values():
                F = lib.dbl(h.term.F)
                if max(map(abs, want)) < 1e15:
                    l = dict(next(l for l in spec.levels if l['name'] == e.name), A=want[0], Bq=want[1], C=want[2])
                    sp = type('S', (), {'I': int(2 * other.I)})
                    s = Spec.hf_shift(sp, l, F)
                    m.ok(abs(h.shift_Hz - s) <= 1e-9 * (max(map(abs, want)) * 1e3 + 1e-300), 'shift',
                         lambda: f'{h.name}: {h.shift_Hz} expected {s}')
        # and back again: applying twice is applying once
        IO.apply_hf_csv(other, real)
        for e in other.levels.values():
            for x, y in zip(consts(e), keep.get(e.name, mine[e.name])):
                m.close(x, y, 'applied-twice', e.name, rel=4e-15)
        m.state(mode, tuple(sorted(exported.values())))
    finally:
        os.chdir(here)
        shutil.rmtree(d)


SCENARIOS = {'csv': (400, 4000, csvs)}
REQUIRED = {'export-plain': 100, 'export-blank': 50, 'export-default': 50, 'applied': 400, 'left-alone': 60,
            'ignored-rows': 200, 'unknown-rows': 100, 'edited-files': 100}
