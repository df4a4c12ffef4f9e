import csv
import math
import os
import re
import runpy
import shutil
import urllib.request

import c19
import engine
import oracle as o
from c21 import Answer
from lib import Fs, Ms, fk, mk

ID = 'C29'
RULE = ('Species: each case runs one shipped species script on a generated answer of the level server (the levels the script '
        'names and a random part of the levels in the oscillator-strength table, with made-up ones, random energies and '
        'Lande factors) and compares the atom with the resource files as read by the csv module. Resources: each case makes '
        'an atom of some of the levels a shipped hyperfine file names, and others, and applies the file.')
ASSUMPTIONS = ['The network is replaced by a stand-in for urllib.request.urlopen on physics.nist.gov addresses.',
               'The frequencies, spins and quadratic shifts the scripts state are written down again here.']
RES = os.path.join(engine.REPO, 'resources')
S, D3, D5, P1 = '4f14.6s 2S1/2', '4f14.5d 2D3/2', '4f14.5d 2D5/2', '4f14.6p 2P*1/2'
BR, F7, CL = ('4f13.(2F*<7/2>).5d.6s.(3D) 3[3/2]*1/2', '4f13.(2F*).6s2 2F*7/2',
              '4f13.(2F*<7/2>).5d.6s.(1D) 1[3/2]*3/2')
NAMED = [S, D3, D5, P1, BR, F7, CL]
IONS = {
    '171': dict(I=1, hf='171Yb_Hyperfine.csv', set={(D3, BR): 320.567693e12, (S, P1): 811.294110e12, (S, D5): 729.476090e12},
                quad={(S, 0, 0): -155.305, (S, 2, 0): 155.305}),
    '173': dict(I=5, hf='173Yb_Hyperfine.csv', set={(D3, BR): 320.570339e12, (S, P1): 811.292506e12, (S, D5): 729.476090e12}, quad={}),
    '174': dict(I=0, hf=None, set={(D3, BR): 320.571752e12, (S, P1): 811.291801e12, (S, D5): 729.475280e12,
                                   (F7, CL): 394.423900e12}, quad={}),
}
ADDED = {frozenset((S, D5)): 22.0, frozenset((F7, CL)): 50e3}
SPINS = {'133Ba': 1, '138Ba': 0, '171Yb': 1, '173Yb': 5, '201Hg': 3, '9Be': 3}
UNITS = {'hertz': 1.0, 'megahertz': 1e6, 'gigahertz': 1e9, 'kilohertz': 1e3, 'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9}


def hz(text):
    x, u = text.split()
    return float(x) * UNITS[u]


def twice(text):
    return int(round(2 * (float(text.split('/')[0]) / float(text.split('/')[1]) if '/' in text else float(text))))


def hyperfine(path):
    out = {}
    with open(path, newline='', encoding='utf-8') as f:
        for row in csv.reader(f):
            if len(row) == 4:
                out[row[0]] = tuple(map(hz, row[1:]))
    return out


def strengths():
    """rows (lower, upper, A in MHz) and the levels {name: (conf, term, J, wavenumber)} of the table"""
    rows, levels = [], {}
    with open(os.path.join(RES, 'Yb_II_Oscillator_Strengths.csv'), newline='', encoding='utf-8') as f:
        for r in csv.DictReader(f):
            ends = []
            for s in 'LU':
                if not r[s + 'J']:
                    ends.append(None)
                    continue
                j = twice(r[s + 'J'])
                n = f'{r[s + "Configuration"]} {r[s + "Term"]}{o.frac(j)}'
                ends.append(n)
                if r[s + 'Configuration'] and r[s + 'Term'] not in ('', '*'):
                    levels[n] = (r[s + 'Configuration'], r[s + 'Term'], j, float(r[s + 'Level']))
            if r['A DREAM']:
                rows.append((*ends, float(r['A DREAM'])))
    return rows, levels


class Form:
    """what the level server is asked for and answers"""

    def __init__(self, rng, m):
        self.rows, known = strengths()
        m.ok(all(n in known for n in NAMED), 'resources', 'a level the scripts name is not in the table')
        rest = sorted(set(known) - set(NAMED))
        self.levels = {n: known[n] for n in NAMED + rng.sample(rest, rng.choice([0, 5, 40, len(rest), rng.randint(0, len(rest))]))}
        self.extra = []
        for k in range(rng.choice([0, 0, 3, 20, 150])):
            J = 2 * rng.randint(1, 6) + 1
            L = (J + rng.choice((-1, 1))) // 2
            self.extra.append(f'4f14.{k + 20}s 2{o.LETTERS[L]}{o.frac(J)}')
            self.levels[self.extra[-1]] = (f'4f14.{k + 20}s', f'2{o.LETTERS[L]}', J, 90000 + 10 * k + rng.uniform(0, 9))
        jitter = rng.random() < .5
        self.E = {n: round(l[3] * (1 + jitter * rng.uniform(-1e-4, 1e-4)), rng.choice([2, 3, 5])) for n, l in self.levels.items()}
        self.g = {n: round(rng.uniform(.1, 2.2), 3) for n in self.levels if rng.random() < .5 or n == S}
        self.order = sorted(self.levels, key=lambda n: (self.E[n], n))
        self.kept = self.order[:300]
        self.limit, self.rng, self.asked = rng.random() < .7, rng, []

    def text(self):
        out = ['Configuration,Term,J,Level (cm-1),Lande,Leading percentages']
        pad = lambda s: f'"=""{" " * self.rng.randint(0, 3)}{s}{" " * self.rng.randint(0, 3)}"""'     # noqa: E731
        for n in self.order:
            conf, term, j, _ = self.levels[n]
            if '[' not in term and '(' not in term and self.rng.random() < .2:
                term = self.rng.choice('abz') + ' ' + term
            out.append(','.join(map(pad, (conf, term, o.frac(j), repr(self.E[n]), self.g.get(n, ''),
                                          self.rng.choice(['100', '97.0', ''])))))
        if self.limit:
            out.append(','.join(map(pad, ('Yb III (4f14 1S<0>)', 'Limit', '---', '98231.75', '', ''))))
        return '\n'.join(out) + '\n'

    def __call__(self, where, *a, **k):
        where = getattr(where, 'full_url', where)
        if 'physics.nist.gov' not in where:
            raise OSError(f'no network: {where}')
        self.asked.append(where)
        return Answer(self.text(), where)


def run(form, ion, name, where):
    """the atom a species script makes"""
    real, here = urllib.request.urlopen, os.getcwd()
    urllib.request.urlopen = form
    try:
        os.chdir(where)
        return runpy.run_path(os.path.join(engine.REPO, 'species', f'Yb_II_{ion}.py'), run_name=name)
    finally:
        urllib.request.urlopen = real
        os.chdir(here)


def ends(t):
    return frozenset((t.E_1.name, t.E_2.name))


def species(rng, m):
    from atomtoolkit.atom import Atom
    ion = rng.choice(sorted(IONS))
    X, form = IONS[ion], Form(rng, m)
    save = rng.random() < .5
    m.op('species', ion, len(form.levels), len(form.kept), save)
    d = c19.scratch()
    try:
        g = run(form, ion, '__main__' if save else f'species.Yb_II_{ion}', d)
        atoms = [g.get('Yb' + ion) or next(x for x in g.values() if isinstance(x, Atom))]
        m.eq(os.listdir(d), [f'Yb_II_{ion}.atom'] if save else [], 'saved-file')
        if save:
            atoms.append(Atom.load(os.path.join(d, f'Yb_II_{ion}.atom')))
            m.seen('saved')
    finally:
        shutil.rmtree(d)
    m.ok(len(form.asked) == 1 and 'spectrum=Yb+II' in form.asked[0], 'request', lambda: form.asked)
    for a in atoms:
        judge(rng, m, a, ion, X, form)
    m.seen('ion-' + ion)
    m.state(ion, len(form.levels), save)


def judge(rng, m, a, ion, X, form):
    import atomtoolkit as tk
    m.eq((a.name, 2 * float(a.I), float(a.B.to('G').magnitude)), (f'{ion}Yb II', X['I'], 0.0), 'ion')
    m.eq(sorted(e.name for e in a.levels.values()), sorted(form.kept), 'levels')
    hf = hyperfine(os.path.join(RES, X['hf'])) if X['hf'] else {}
    moved = {n for k in X['set'] for n in k}
    cm = 100 * o.C_LIGHT
    for n in form.kept:
        e = a.levels[n]
        m.eq(2 * float(e.term.J), form.levels[n][2], 'J', n)
        if n not in moved:
            m.close(e.level_Hz, form.E[n] * cm, 'energy', n, rel=1e-12)
        for x, y in zip((e.hfA_Hz, e.hfB_Hz, e.hfC_Hz), hf.get(n, (0, 0, 0))):
            m.close(float(x), y, 'hyperfine', n, rel=1e-12)
        m.seen('constants', n in hf)
        if n in form.g:
            m.close(float(e.lande), form.g[n], 'lande', n)
    have = set(form.kept)
    want = {}
    for l, u, A in form.rows:
        if l in have and u in have:
            want[frozenset((l, u))] = A * 1e6
    want.update(ADDED)
    got = {ends(t): t for t in a.transitions.values()}
    m.eq(len(got), len(a.transitions), 'transitions')
    inner = {frozenset((n,)) for n in have}
    m.ok(set(got) == set(want) | inner, 'transitions',
         lambda: f'{[sorted(k) for k in set(got) ^ (set(want) | inner)][:3]}')
    for k, A in want.items():
        m.close(float(got[k].A.to('Hz').magnitude), A, 'A', sorted(k), rel=1e-12)
    m.seen('rates', len(want))
    for k, f in X['set'].items():
        t = a.transitions[k]
        m.close(t.freq_Hz, f, 'stated', k, rel=1e-12, abs_=1.0)
        m.close(float(t.freq.to('THz').magnitude), f / 1e12, 'stated', k, rel=1e-12)
    for n in rng.sample(form.kept, min(5, len(form.kept))) + [S, F7]:      # sublevels, from the constants in the files
        e, J = a.levels[n], form.levels[n][2]
        m.eq(sorted(e.keys()), sorted(fk(F) for F in Fs(X['I'], J)), 'sublevels', n)
        for F in Fs(X['I'], J):
            c = o.hf_coeffs(X['I'], J, F)
            m.close(e[fk(F)].level_Hz - e.level_Hz, sum(x * y for x, y in zip(c, hf.get(n, (0, 0, 0)))), 'splitting', n,
                    rel=1e-9, abs_=1.0)
        m.seen('split')
    # the sum of the rates out of a level
    for n in rng.sample(form.kept, min(4, len(form.kept))) + [P1]:
        e = a.levels[n]
        out = {}
        for k, A in want.items():
            if n in k:
                p = next(iter(k - {n}))
                if a.levels[p].level_Hz < e.level_Hz:
                    out[p] = A
        if any(out.values()):
            r = a.compute_branching_ratios(n)
            m.eq(set(r), set(out), 'decays', n)
            for p, A in out.items():
                m.close(float(r[p]), A / sum(out.values()), 'ratio', (n, p), rel=1e-9)
            m.close(a.state_lifetime(n).to('s').magnitude, 2 * math.pi / sum(out.values()), 'lifetime', n, rel=1e-9)
            m.seen('decays', len(out))
    # in a field
    B = rng.choice([.1, 1, 5.5, 12])
    e, J = a.levels[S], 1
    g = form.g[S]
    zero = {(F, M): e[fk(F)][mk(M)].level_Hz for F in Fs(X['I'], J) for M in Ms(F)}
    a.B = B * tk.G
    for (F, M), E0 in zero.items():
        lin = o.g_F(g, X['I'], J, F) * M / 2 * o.MU_B_HZ_PER_G * B
        quad = X['quad'].get((S, F, M), 0) * B * B
        m.close(e[fk(F)][mk(M)].level_Hz - E0, lin + quad, 'zeeman', (F, M, B), rel=1e-6, abs_=1e-1)
    if ion == '171':
        f = e['F=1']['mF=0'].level_Hz - e['F=0']['mF=0'].level_Hz
        m.close(f, 12642812124.2 + 310.61 * B * B, 'clock', B, rel=1e-12, abs_=1e-2)
    a.B = 0 * tk.G
    m.ok(all(abs(e[fk(F)][mk(M)].level_Hz - E0) < 1e-2 for (F, M), E0 in zero.items()), 'zeeman', 'after the field')


NAME = re.compile(r'(\S+) (\S*[A-Z\])]\*?)(\d+/2|\d+)$')


def resources(rng, m):
    """the shipped hyperfine files on atoms with some of their levels"""
    import atomtoolkit as tk
    from atomtoolkit import IO
    from atomtoolkit.atom import Atom, EnergyLevel
    from atomtoolkit.term import Term
    iso = rng.choice(sorted(SPINS))
    hf = hyperfine(os.path.join(RES, f'{iso}_Hyperfine.csv'))
    names = [n for n in hf if NAME.match(n)]
    some = rng.sample(names, min(len(names), rng.choice([1, 4, 12, 40])))
    others = [f'7s.{k}p 2P*{o.frac(j)}' for k in range(7, 10) for j in (1, 3) if rng.random() < .5]
    a = Atom(iso, I=SPINS[iso] / 2, B=rng.choice([0, 0, 3.5]) * tk.G)
    before = {}
    order = some + others
    rng.shuffle(order)
    for k, n in enumerate(order):
        conf, term, J = NAME.match(n).groups()
        x = tuple(rng.choice([0.0, rng.uniform(-1e9, 1e9)]) for _ in range(3))
        e = EnergyLevel(Term(conf, term, rng.choice([J, twice(J) / 2])), (k + 1) * 1e14 * tk.Hz, lande=1.0,
                        hfA=x[0] * tk.Hz, hfB=x[1] * tk.Hz, hfC=x[2] * tk.Hz)
        a.add_level(e)
        m.eq(e.name, n, 'name')
        before[n] = x
        if rng.random() < .3:
            e.sublevels()
    m.op('resources', iso, order)
    IO.apply_hf_csv(a, os.path.join(RES, f'{iso}_Hyperfine.csv'))

    def look(a):
        for k, n in enumerate(order):
            e, x = a.levels[n], hf.get(n, before[n])
            m.close(e.level_Hz, (k + 1) * 1e14, 'energy', n)
            for p, q in zip((e.hfA_Hz, e.hfB_Hz, e.hfC_Hz), x):
                m.close(float(p), q, 'constants', n, rel=1e-12)
            J, I = twice(NAME.match(n).group(3)), SPINS[iso]
            for F in Fs(I, J):
                want = sum(p * q for p, q in zip(o.hf_coeffs(I, J, F), x))
                m.close(e[fk(F)].shift_Hz, want, 'shift', (n, F), rel=1e-9, abs_=1.0)
            m.seen('applied', n in hf and any(hf[n]))
    look(a)
    d = c19.scratch()
    try:
        p = os.path.join(d, 'again.csv')
        IO.generate_hf_csv(a, p)
        m.ok(all(abs(x - y) <= 1e-12 * abs(y) for n, v in hyperfine(p).items() for x, y in zip(v, hf.get(n, before[n]))),
             'written', 'constants in the file')
        m.eq(sorted(hyperfine(p)), sorted(order), 'written')
        for n in order:
            a.levels[n].hfA, a.levels[n].hfC = 1.5 * tk.GHz, 2 * tk.MHz
        IO.apply_hf_csv(a, p)
    finally:
        shutil.rmtree(d)
    look(a)
    m.seen('iso-' + iso)
    m.state(iso, len(some), len(others))


SCENARIOS = {'species': (24, 240, species), 'resources': (120, 1200, resources)}
REQUIRED = {'ion-171': 2, 'ion-173': 2, 'ion-174': 2, 'saved': 4, 'constants': 300, 'rates': 1000, 'applied': 100,
            'decays': 30, **{'iso-' + k: 4 for k in SPINS}}
