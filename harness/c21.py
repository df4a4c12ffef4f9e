import io
import math
import os
import random
import shutil
import email.message
import urllib.parse
import urllib.request

import lib
import oracle as o
from c19 import scratch
from lib import LETTERS, star
from oracle import frac, trange

ID = 'C21'
RULE = ('A stand-in for the NIST server answers the library\'s request with a synthetic level table in the format of '
        'the energy-levels form (quoted cells, uncertainty marks, padding, optional columns, levels with several J, rows '
        'without energy, ionization limits, all documented layouts of the leading-percentages column); the imported '
        'table and the atom built from it are compared with what was written into the table.')
ASSUMPTIONS = ['The network is replaced by a stand-in for urllib.request.urlopen on physics.nist.gov addresses.',
               'The table has at least one ionization limit or none, and rows are ordered so that everything at or above '
               'the limit follows it.',
               'The second component is given in one of the layouts documented in the importer: whole, from the first '
               'parenthesis on, or by the contents of all its parentheses.']


def cap(rng, j):
    """text and numbers of an intermediate term of given j"""
    s = rng.choice([x for x in range(0, 9) if x % 2 == j % 2])
    ls = [x for x in trange(j, s) if x // 2 < len(LETTERS)]
    return f'{s + 1}{LETTERS[rng.choice(ls) // 2]}{star(rng)}'


def jk(rng, J):
    so = rng.randrange(0, 5)
    K = rng.choice(list(trange(J, so)))
    lo = 2 * rng.randrange(0, 5)
    jc = rng.choice(list(trange(K, lo)))
    return [f'{cap(rng, jc)}<{frac(jc)}>', f'{so + 1}{LETTERS[lo // 2]}{star(rng, .2)}'], f'{so + 1}[{frac(K)}]{star(rng)}'


def jj(rng, J):
    a = rng.randrange(0, 9)
    b = rng.choice(list(trange(J, a)))
    return ([f'{cap(rng, a)}<{frac(a)}>', f'{cap(rng, b)}<{frac(b)}>'],
            f'({frac(a)},{rng.choice(["", " "])}{frac(b)}){star(rng)}', (frac(a), frac(b)))


def ls(rng, J):
    S = rng.choice([x for x in range(0, 7) if x % 2 == J % 2])
    L = rng.choice([x for x in trange(J, S) if x % 2 == 0])
    return f'{S + 1}{LETTERS[min(L // 2, 19)]}{star(rng)}'


def component(rng, uid, J, kind):
    """(configuration, its parenthesised groups, configuration with the groups left open, term, j pair of a JJ term)"""
    head = f'{uid % 9 + 1}{rng.choice("spdf")}{rng.choice(["", "2", "13"])}'
    if rng.random() < 0.3:                 # closed or further open shells before the first parenthesis
        head = f'{rng.choice(["5p6", "4d10", "5s2", "3d"])}.{head}'
    tail = f'{uid // 9 + 4}'
    if kind == 'LS':
        conf = rng.choice([f'{head}.{tail}{rng.choice("spdf")}', f'{head}.({cap(rng, 1)}).{tail}p', f'{head}'
                           f'.{tail}s2'])
        return conf, None, None, ls(rng, J), None
    if kind == 'LK':
        K = rng.choice(list(trange(J, 1)))
        L = rng.choice([x for x in trange(K, K % 2) if x % 2 == 0])
        return (f'{head}.({2 - (K + L) % 2}{rng.choice("SPDF")}).{tail}d', None, None,
                f'{LETTERS[L // 2]} 2[{frac(K)}]{star(rng)}', None)
    if kind == 'JK':
        g, term = jk(rng, J)
        form = f'{head}.(%s).{tail}{rng.choice(["d2", "d.6s", "p2"])}.(%s)'
        return form % tuple(g), g, form, term, None
    g, term, js = jj(rng, J)
    form = f'{head}.(%s).{tail}{rng.choice(["d.6p", "s.6p", "p.7p"])}.(%s)'
    return form % tuple(g), g, form, term, js


def pad(rng, lo=0, hi=6):
    return ' ' * rng.randint(lo, hi)


class Table:
    def __init__(self, rng, m):
        n = rng.randint(1, 14)
        self.has_lande, self.has_pct = rng.random() < 0.8, rng.random() < 0.85
        self.decimals = rng.random() < 0.25
        odd = rng.randrange(2)
        es = sorted({0.0 if i == 0 and rng.random() < .7 else round(rng.uniform(0, 9e4), rng.randint(0, 4))
                     for i in range(n)})
        self.rows = []
        for uid, E in enumerate(es):
            self.rows.append(self.row(rng, uid, E, odd, m))
        self.limit = rng.random() < 0.75
        self.body = []                     # (row or None, cells)
        lim = rng.uniform(3e4, 1e5)
        if rng.random() < 0.15 and es:
            lim = rng.choice(es)           # a level exactly at the limit
        self.lim = round(lim, 2) if lim not in es else lim
        below = [r for r in self.rows if not self.limit or r['E'] < self.lim]
        above = [r for r in self.rows if r not in below]
        self.kept = below
        self.above = above
        if above:
            m.seen('above-limit', len(above))

    def row(self, rng, uid, E, odd, m):
        J = rng.choice([j for j in range(0, 13) if j % 2 == odd])
        kind = rng.choice(['LS', 'LS', 'LS', 'JK', 'JK', 'JJ', 'LK'])
        conf, groups, form, term, js = component(rng, uid, J, kind)
        r = dict(E=E, J=[J], conf=conf, term=term, lande=None, p1=100.0, c2=None, t2='', p2=None)
        if self.has_lande and rng.random() < 0.6:
            r['lande'] = rng.choice([round(rng.uniform(-1, 3), 3), 0.0, round(rng.uniform(0, 2), 5), 1])
        if rng.random() < 0.15 and kind == 'LS':
            r['J'] = sorted({J, J + 2, *([J + 4] if rng.random() < .3 else [])}, reverse=rng.random() < .2)
            m.seen('several-J')
        cell_term = term
        if rng.random() < 0.2 and kind in ('LS', 'JK'):
            cell_term = f'{rng.choice("abcdxyz")} {term}'
            m.seen('term-prefix')
        pct = ''
        if self.has_pct:
            p1 = rng.randint(30, 100) if not self.decimals or rng.random() < .5 else round(rng.uniform(50, 99), 1)
            lay = rng.choice(['none', 'lone', 'whole', 'whole', 'tail', 'groups', 'groups'])
            first = ''
            if lay == 'lone':
                pct, r['p1'] = f'{p1}{pad(rng)}', float(p1)
                m.seen('pct-lone')
            elif lay != 'none':
                p1 = min(p1, 90)
                p2 = rng.randint(1, min(29, 99 - int(p1))) if not self.decimals or rng.random() < .5 else \
                    round(rng.uniform(1, 9), 1)
                if groups is None and lay in ('tail', 'groups'):
                    lay = 'whole'
                if lay == 'whole':
                    c2, g2, _, t2, js2 = component(rng, uid + 30, J, rng.choice(['LS', 'LS', 'LK', kind]))
                    shown = c2
                elif lay == 'groups':
                    g2, t2, js2 = (jk(rng, J) + (None,)) if kind == 'JK' else jj(rng, J)
                    c2 = form % tuple(g2)
                    shown = ''.join(f'({g})' for g in g2)
                else:
                    head = conf.split('(')[0]
                    c2, g2, form2, t2, js2 = component(rng, uid + 30, J, rng.choice(['JK', 'JJ']))
                    shown = '(' + c2.split('(', 1)[1]
                    c2 = head + shown
                if js2:
                    t2 = f'({js2[0]}, {js2[1]})'
                    shown_t = '' if rng.random() < .8 else t2.replace(' ', '')
                    if shown_t:
                        t2 = shown_t
                    m.seen('pct-jj')
                else:
                    shown_t = t2
                if kind != 'LK' and ' ' not in term and rng.random() < 0.25:
                    first = term
                    cell_term = rng.choice(['', '*', cell_term])
                    m.seen('term-from-pct')
                if shown.startswith('('):
                    sep = pad(rng, 2, 30)
                else:
                    sep = pad(rng, 2, 8)
                pct = (f'{p1}{pad(rng, 2, 4)}{first}{pad(rng, 2, 12)}:{pad(rng, 2, 4)}{p2}{sep}{shown}'
                       + (f'{pad(rng, 1, 20)}{shown_t}' if shown_t else '') + pad(rng))
                r.update(p1=float(p1), c2=c2, t2=t2, p2=float(p2))
                m.seen('pct-' + lay)
        mark = rng.choice(['', '', '', '?', ' ?', '??'])
        if mark:
            m.seen('marks')
        e_text = f'{E:.{rng.choice([1, 3, 4])}f}' if round(E, 1) == E else repr(E)
        if mark and rng.random() < .3 and cell_term:
            cell_term += rng.choice(['?', ' ?'])
        sep = rng.choice([',', ', ', ' or '])
        r['cells'] = {
            'Configuration': pad(rng, 0, 2) + conf + rng.choice(['', '', ' ', '?']), 'Term': cell_term + rng.choice(['', ' ']),
            'J': sep.join(frac(j) for j in r['J']) + rng.choice(['', '', '?', ' ']),
            'Level (cm-1)': pad(rng, 0, 3) + e_text + mark + pad(rng, 0, 2),
            'Uncertainty (cm-1)': rng.choice(['', '0.10', '0.0020']), 'Prefix': rng.choice(['', '[', '(']),
            'Suffix': rng.choice(['', ']', '?']), 'Lande': '' if r['lande'] is None else f'{r["lande"]}' + rng.choice(['', '?']),
            'Leading percentages': pct, 'Reference': rng.choice(['', 'L1234', '="x"'.strip('="')])}
        return r

    def csv(self, rng, by_term, m):
        cols = ['Configuration', 'Term', 'J', 'Prefix', 'Level (cm-1)', 'Suffix', 'Uncertainty (cm-1)', 'Lande',
                'Leading percentages', 'Reference']
        if not self.has_lande:
            cols.remove('Lande')
        if not self.has_pct:
            cols.remove('Leading percentages')
        for c in ('Prefix', 'Suffix', 'Reference'):
            if rng.random() < .3:
                cols.remove(c)
        blank = {c: '' for c in cols}
        lines = []

        def put(cells):
            lines.append(','.join('"=""%s"""' % cells.get(c, '').replace('"', '""') for c in cols)
                         + (',' if self.trailing else ''))
        self.trailing = rng.random() < .5

        def clutter():
            while rng.random() < .2:
                # a row of a level that has not been located
                put(dict(blank, Configuration='9s.9p', Term='3P*', J='1',
                         **{'Level (cm-1)': rng.choice(['', '', '---', ' ', '?'])}))
                m.seen('no-energy')

        def limit(E):
            put(dict(blank, Configuration=rng.choice(['Zz III (4f14)', 'Zz II']), Term='Limit',
                     J=rng.choice(['---', '', '1/2']), **{'Level (cm-1)': repr(float(E))}))
        kept = self.kept
        if by_term:
            kept = sorted(kept, key=lambda r: (r['conf'], r['term'], r['E']))
        self.order = kept
        for r in kept:
            clutter()
            put(r['cells'])
        if self.limit:
            clutter()
            limit(self.lim)
            m.seen('limits')
            for r in self.above:
                clutter()
                put(r['cells'])
            if rng.random() < .3:
                limit(self.lim * 1.1)
        clutter()
        if not lines:
            put(blank)
        return '\n'.join([','.join(cols)] + lines) + '\n'


class Answer(io.BytesIO):
    """what urllib.request.urlopen returns"""
    status = code = 200

    def __init__(self, text, url):
        super().__init__(text.encode('utf-8'))
        self.url, self.headers = url, email.message.Message()
        self.headers['Content-Type'] = 'text/csv; charset=utf-8'

    def geturl(self):
        return self.url

    def info(self):
        return self.headers

    def getcode(self):
        return self.status


class Server:
    """answers requests to the energy-levels form"""

    def __init__(self, tab, species, by_term, rng, m):
        self.tab, self.species, self.rng, self.m, self.asked = tab, species, rng, m, 0
        self.by_term = by_term

    def __call__(self, where, *a, **k):
        where = getattr(where, 'full_url', where)
        if 'physics.nist.gov' not in where:
            raise OSError(f'no network: {where}')
        self.asked += 1
        q = {x: v[0] for x, v in urllib.parse.parse_qs(urllib.parse.urlsplit(where).query, keep_blank_values=True).items()}
        self.m.eq(q.get('spectrum'), self.species, 'request', where)
        self.m.eq((q.get('units'), q.get('format')), ('0', '2'), 'request', where)
        self.m.eq(q.get('multiplet_ordered') == 'on', self.by_term, 'request', 'order')
        text = self.tab.csv(self.rng, q.get('multiplet_ordered') == 'on', self.m)
        for c, f in (('conf_out', 'Configuration'), ('term_out', 'Term'), ('level_out', 'Level (cm-1)'), ('j_out', 'J'),
                     ('lande_out', 'Lande'), ('perc_out', 'Leading percentages')):
            self.m.eq(q.get(c), 'on', 'request', f)
        return Answer(text, where)


def num(x):
    x = getattr(x, 'magnitude', x)
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def clean(x):
    return '' if x is None or (isinstance(x, float) and math.isnan(x)) else x


def reread(rng, m, path, df, tab):
    """the saved table, read as a plain file and with load_level_data"""
    import pandas as pd
    from atomtoolkit import IO
    from atomtoolkit.atom import Atom
    raw = pd.read_csv(path, keep_default_na=False)
    m.eq(len(raw), len(df), 'saved-rows')
    for c in ('Configuration', 'Term', 'J'):
        m.eq([str(x) for x in raw[c]], [str(x) for x in df[c]], 'saved-' + c)
    cols = ['Configuration', 'Term', 'J', 'Level (cm-1)', 'Lande', 'Percentage']
    if rng.random() < .5:
        cols += ['Configuration_2', 'Term_2', 'Percentage_2']
    back = IO.load_level_data(path, columns={c: c for c in cols})
    same_levels(m, back, df, 'saved')
    m.seen('saved')
    atom, again = Atom.from_dataframe(df, 'Zz'), Atom.from_dataframe(back, 'Zz')
    m.eq([e.name for e in again.levels.values()], [e.name for e in atom.levels.values()], 'saved-atom')


def same_levels(m, got, df, what):
    m.eq(len(got), len(df), what + '-rows')
    for i in range(len(df)):
        a, b = got.iloc[i], df.iloc[i]
        for c in ('Configuration', 'Term', 'J'):
            m.eq(str(a[c]), str(b[c]), f'{what}-{c}')
        for c in ('Lande', 'Percentage', 'Percentage_2'):
            if c in got.columns:
                x, y = num(a[c]), num(b[c])
                m.ok(x == y or (x is None or math.isnan(x)) and (y is None or math.isnan(y)), f'{what}-{c}', lambda: f'{x} {y}')
        for c in ('Configuration_2', 'Term_2'):
            if c in got.columns:
                m.eq(clean(a[c]), clean(b[c]), f'{what}-{c}')
        e = df['Level (cm-1)'][i]
        m.close(float(got['Level (cm-1)'][i].to('1/cm').magnitude), float(e.to('1/cm').magnitude), what + '-energy', rel=1e-14)
        m.close(float(got['Level (Hz)'][i].to('Hz').magnitude), float(e.to('Hz').magnitude), what + '-frequency', rel=1e-13)


def from_file(rng, m):
    """a level table of one's own in a file, with any column names"""
    import pandas as pd
    from atomtoolkit import IO
    from atomtoolkit.atom import Atom
    tab = Table(rng, m)
    rows = tab.rows
    rng.shuffle(rows)
    names = {'Configuration': 'conf', 'Term': 'trm', 'J': 'j', 'Level (cm-1)': 'E', 'Lande': 'g', 'Percentage': 'p'}
    if rng.random() < .3:
        names = {k: k for k in names}
    marked = rng.random() < .5                          # uncertainty marks around the energies
    zero = rng.choice([0.0, 0.0, round(rng.uniform(100.0, 60000.0), 2)])        # measured from another level
    Es = {id(r): round(r['E'] - zero, 4) for r in rows}
    written = {k: (f'{E:.12e}' if rng.random() < .1 else f'{E:.4f}') for k, E in Es.items()}
    m.seen('file-negative', sum(E < 0 for E in Es.values()) if marked else 0)
    def energy(r):
        x = written[id(r)]
        return rng.choice(['%s', '[%s]', '(%s)', '%s?', ' %s ']) % x if marked else x
    J = [rng.choice(r['J']) for r in rows]
    data = {names['Configuration']: [r['conf'] for r in rows], names['Term']: [r['term'] for r in rows],
            names['J']: [o.frac(j) if j % 2 or rng.random() < .5 else f'{j // 2}' for j in J],
            names['Level (cm-1)']: [energy(r) for r in rows],
            names['Lande']: ['' if r['lande'] is None else r['lande'] for r in rows],
            names['Percentage']: [r['p1'] for r in rows], 'other': ['y'] * len(rows)}
    d = scratch()
    try:
        path = os.path.join(d, 'levels.csv')
        order = list(data)
        rng.shuffle(order)
        sep = rng.choice([',', ',', ';', '\t'])
        pd.DataFrame({k: data[k] for k in order}).to_csv(path, index=False, sep=sep)
        keep = dict(names)
        m.op('file', sep, marked, [r['cells'] for r in rows])
        df = IO.load_level_data(path, columns=keep, **({} if sep == ',' else {'sep': sep}))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m.eq(len(df), len(rows), 'file-rows')
    names_ = []
    for i, (r, j) in enumerate(zip(rows, J)):
        x = df.iloc[i]
        m.eq((x['Configuration'], x['Term']), (r['conf'], r['term']), 'file-level')
        m.eq(str(x['J']), data[names['J']][i], 'file-J')
        m.close(float(df['Level (cm-1)'][i].to('1/cm').magnitude), Es[id(r)], 'file-energy', rel=1e-14)
        m.close(float(df['Level (Hz)'][i].to('Hz').magnitude), Es[id(r)] * 100 * o.C_LIGHT, 'file-energy', rel=1e-13)
        m.close(num(x['Percentage']), r['p1'], 'file-percentage')
        la = num(x['Lande'])
        m.ok(math.isnan(la) if r['lande'] is None else la == r['lande'], 'file-lande', lambda: f'{la} {r["lande"]}')
        names_.append(f'{r["conf"]} {r["term"]}{o.frac(j)}')
        m.seen('file-rows')
    try:
        atom = Atom.from_dataframe(df, 'Zz', 0.5)
    except Exception as e:
        m.ok(False, 'file-atom', repr(e))
    else:
        m.eq(sorted(atom.levels.keys()), sorted(set(names_)), 'file-atom')
        part_of(rng, m, df, names_)
        for n, r in zip(names_, rows):
            if names_.count(n) == 1:
                m.close(atom.levels[n].level.to('Hz').magnitude, Es[id(r)] * 100 * o.C_LIGHT, 'file-atom', n, rel=1e-13)


def part_of(rng, m, df, names):
    """an atom built from some rows of a table, in any order"""
    import pandas as pd
    from atomtoolkit.atom import Atom, EnergyLevel
    pos = sorted(rng.sample(range(len(df)), rng.randint(1, len(df))))
    how = rng.choice(['mask', 'reverse', 'rows', 'concat', 'named'])
    if how == 'mask':
        part = df[[i in pos for i in range(len(df))]]
    elif how == 'concat':
        k = rng.randint(0, len(pos))
        part = pd.concat([df.iloc[pos[:k]].reset_index(drop=True), df.iloc[pos[k:]].reset_index(drop=True)])
    else:
        pos = pos[::-1] if how == 'reverse' else rng.sample(pos, len(pos))
        part = df.iloc[pos]
        if how == 'named':
            part.index = [f'row {i}' for i in range(len(part))]
    n = rng.choice([None, rng.randint(1, len(pos)), len(pos) + rng.randint(1, 9)])      # more than there are: all
    m.op('part', how, pos, n)
    try:
        atom = Atom.from_dataframe(part, 'Zz', **({} if n is None else {'num_levels': n}))
        i = rng.randrange(len(pos))
        one = EnergyLevel.from_dataframe(part, i)
    except Exception as e:
        m.ok(False, 'part-atom', repr(e))
        return
    m.eq(sorted(atom.levels.keys()), sorted({names[i] for i in pos[:n]}), 'part-atom', how)
    m.eq(one.name, names[pos[i]], 'part-row', how)
    m.eq(one.level_Hz, float(df['Level (cm-1)'].iloc[pos[i]].to('Hz').magnitude), 'part-row', how)
    m.seen('part-' + how)


def imported(rng, m):
    import pandas as pd
    from atomtoolkit import IO
    from atomtoolkit.atom import Atom
    from atomtoolkit.term import Term
    tab = Table(rng, m)
    if not tab.kept:
        from engine import Skip
        raise Skip
    species = rng.choice(['Yb II', 'Na I', 'Th III', 'H I'])
    by_term = rng.random() < .3
    m.op('table', len(tab.rows), len(tab.kept), tab.limit, by_term, [r['cells'] for r in tab.rows])
    real = urllib.request.urlopen
    srv = Server(tab, species, by_term, random.Random(rng.random()), m)
    how = rng.choice(['', '', '', 'True', 'name', 'name.csv', 'False'])
    save = {'': None, 'True': True, 'False': False, 'name': 'my levels', 'name.csv': 'my.levels.csv'}[how]
    args = {} if not how else {'save': save}
    d, here = scratch(), os.getcwd()
    urllib.request.urlopen = srv
    try:
        os.chdir(d)
        df = IO.load_NIST_data(species, by_term, **args) if rng.random() < .5 else \
            IO.load_NIST_data(species, term_ordered=by_term, **args)
        urllib.request.urlopen = real
        want = {'True': f'{species}_level_data.csv', 'name': 'my levels.csv', 'name.csv': 'my.levels.csv'}.get(how)
        m.eq(os.listdir(d), [want] if want else [], 'saved-file', how)
        if want:
            reread(rng, m, want, df, tab)
    finally:
        urllib.request.urlopen = real
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    m.eq(srv.asked, 1, 'request', 'number of requests')
    want = [(r, J) for r in tab.order for J in r['J']]
    m.eq(len(df), len(want), 'rows', [r['conf'] for r, _ in want])
    m.eq(list(df.index), list(range(len(df))), 'index')
    for i, (r, J) in enumerate(want):
        x = df.iloc[i]
        w = f'{r["cells"]}'
        m.eq(x['Configuration'], r['conf'], 'configuration', w)
        m.eq(x['Term'], r['term'], 'term', w)
        m.eq(x['J'], frac(J), 'J', w)
        e = df['Level (cm-1)'][i]
        m.close(float(e.to('1/cm').magnitude), r['E'], 'energy', w, rel=1e-14)
        m.close(float(df['Level (Hz)'][i].to('Hz').magnitude), r['E'] * 100 * o.C_LIGHT, 'frequency', w, rel=1e-13)
        la = num(x['Lande'])
        if r['lande'] is None:
            m.ok(la is None or math.isnan(la), 'lande', lambda: f'{w}: {la}')
        else:
            m.close(la, r['lande'], 'lande', w)
            m.seen('landes')
        m.close(num(x['Percentage']), r['p1'], 'percentage', w)
        m.eq(clean(x['Configuration_2']), r['c2'] or '', 'configuration-2', w)
        m.eq(clean(x['Term_2']), r['t2'], 'term-2', w)
        p2 = num(x['Percentage_2'])
        if r['p2'] is None:
            m.ok(p2 is None or math.isnan(p2), 'percentage-2', lambda: f'{w}: {p2}')
        else:
            m.close(p2, r['p2'], 'percentage-2', w)
            m.seen('second-components')
        if i % 3 == 0:
            t = Term.from_dataframe(df, i)
            m.eq((t.conf, t.term, lib.dbl(t.J)), (r['conf'], r['term'], J), 'row-term', w)
            m.close(float(t.percentage), r['p1'], 'row-term', w)
            m.seen('row-terms')
        m.seen('rows')
    m.state(tuple((r['term'], tuple(r['J']), r['p1']) for r in tab.order))
    # the atom
    n = None if rng.random() < .7 else rng.randint(1, len(df))
    odd = want[0][1] % 2
    atom = Atom.from_dataframe(df, 'Zz', rng.choice([0, 0.5, 2]), **({} if n is None else {'num_levels': n}))
    part = want[:n]
    names = {f'{r["conf"]} {r["term"]}{frac(J)}': (r, J) for r, J in part}
    m.eq(sorted(atom.levels.keys()), sorted(names), 'atom-levels')
    for nm, (r, J) in names.items():
        e = atom.levels[nm]
        m.close(e.level.to('Hz').magnitude, r['E'] * 100 * o.C_LIGHT, 'atom-energy', nm, rel=1e-13)
        m.eq(lib.dbl(e.term.J), J, 'atom-J', nm)
        if r['lande'] is not None:
            m.close(float(e.lande), r['lande'], 'atom-lande', nm)
        else:
            m.ok(not math.isnan(e.lande), 'atom-lande', nm)
        got = [(t.conf, t.term, float(t.percentage)) for t in e.term.terms]
        m.eq(got, [(r['conf'], r['term'], r['p1'])] + ([(r['c2'], r['t2'], r['p2'])] if r['c2'] else []), 'atom-terms', nm)
        m.seen('atom-levels')
    es = [atom.levels[i].level_Hz for i in range(len(names))]
    m.eq(es, sorted(es), 'atom-order')


SCENARIOS = {'import': (320, 4000, imported), 'file': (80, 1000, from_file)}
REQUIRED = {'rows': 1000, 'several-J': 30, 'term-prefix': 100, 'pct-lone': 60, 'pct-whole': 150, 'pct-tail': 30,
            'pct-groups': 60, 'pct-jj': 30, 'term-from-pct': 60, 'no-energy': 60, 'limits': 80, 'above-limit': 100,
            'landes': 300, 'second-components': 300, 'atom-levels': 900, 'marks': 300, 'saved': 40, 'file-rows': 200,
            'file-negative': 25, 'part-mask': 5, 'part-reverse': 5, 'part-rows': 5, 'part-concat': 5, 'part-named': 5}
