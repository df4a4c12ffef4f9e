"""Workload generators: spectroscopic notation, atoms, edit histories.  Angular momenta are doubled integers here."""
import random
import warnings

import oracle as o
from oracle import LETTERS, frac, trange

SHELLS = ['1s2', '2s', '3d7', '3p5', '4f', '4f2', '4f13', '4f14', '5d', '5d9', '5d10', '6s', '6s2', '5f3', '5s.5p',
          '6s.6p', '3d10.4s', '5p6.4f7']


def num(rng, t):
    """a doubled number in one of the spellings the library accepts"""
    if t is None:
        return None
    c = rng.randrange(4)
    if c == 0:
        return t / 2
    if c == 1:
        return frac(t)
    if c == 2 and t % 2 == 0:
        return t // 2
    if c == 3:
        return str(t / 2)
    return t / 2


def star(rng, p=0.4):
    return '*' if rng.random() < p else ''


def core(rng):
    return rng.choice(SHELLS)


def gen_LS(rng, big=True):
    S = rng.randrange(0, 12 if big else 5)
    L = rng.randrange(0, len(LETTERS) if big else 8)
    st = star(rng)
    conf = core(rng)
    if rng.random() < 0.5:
        conf += f'.({rng.randrange(1, 8)}{rng.choice(LETTERS[:9])}{star(rng)}).{rng.randrange(4, 9)}{rng.choice("spdfg")}'
    J = rng.choice(list(trange(2 * L, S)))
    return dict(coupling='LS', conf=conf, term=f'{S + 1}{LETTERS[L]}{st}', J=J, par=-1 if st else 1,
                q=dict(l=2 * L, s=S))


def gen_JK(rng, big=True):
    lm = len(LETTERS) if big else 5
    sc, lc = rng.randrange(0, 12 if big else 4), 2 * rng.randrange(0, lm)
    jc = rng.choice(list(trange(lc, sc)))
    two = rng.random() < 0.5
    lo = 2 * rng.randrange(0, lm if two else min(lm, 7))
    so = rng.randrange(0, 9 if big else 4)
    K = rng.choice(list(trange(jc, lo)))
    J = rng.choice(list(trange(K, so)))
    st = star(rng)
    dot = rng.choice(['.', ''])
    conf = f'{core(rng)}{dot}({sc + 1}{LETTERS[lc // 2]}{star(rng)}<{frac(jc)}>)'
    if two:
        conf += f'{rng.choice([".", ""])}{core(rng)}.({so + 1}{LETTERS[lo // 2]}{star(rng)})'
    else:
        conf += f'.{rng.randrange(4, 12)}{LETTERS[lo // 2].lower()}'
    return dict(coupling='JK', conf=conf, term=f'{so + 1}[{frac(K)}]{st}', J=J, par=-1 if st else 1,
                q=dict(lc=lc, sc=sc, lo=lo, so=so, jc=jc, k=K))


def gen_LK(rng, big=True):
    lm = len(LETTERS) if big else 5
    sc, lc = rng.randrange(0, 12 if big else 4), 2 * rng.randrange(0, lm)
    two = rng.random() < 0.5
    lo = 2 * rng.randrange(0, lm if two else min(lm, 7))
    so = rng.randrange(0, 9 if big else 4)
    L = rng.choice([x for x in range(abs(lc - lo), lc + lo + 1, 2) if x // 2 < len(LETTERS)])
    K = rng.choice(list(trange(L, sc)))
    J = rng.choice(list(trange(K, so)))
    st, st2 = star(rng), star(rng, 0.2)
    blank = ' ' if rng.random() < 0.8 else ''
    conf = f'{core(rng)}.({sc + 1}{LETTERS[lc // 2]}{star(rng)}).'
    if two:
        conf += f'{core(rng)}.({so + 1}{LETTERS[lo // 2]}{star(rng)})'
    else:
        conf += f'{rng.randrange(4, 12)}{LETTERS[lo // 2].lower()}'
    return dict(coupling='LK', conf=conf, term=f'{LETTERS[L // 2]}{st2}{blank}{so + 1}[{frac(K)}]{st}', J=J,
                par=-1 if st or st2 else 1, q=dict(lc=lc, sc=sc, lo=lo, so=so, l=L, k=K))


def gen_JJ(rng, big=True, form=None):
    lm = len(LETTERS) if big else 5
    form = form or rng.choice(['CC', 'CC', 'Cl', 'll', 'Pl', 'PC', 'T'])

    def cap():
        s, l = rng.randrange(0, 12 if big else 4), 2 * rng.randrange(0, lm)
        j = rng.choice(list(trange(l, s)))
        st = star(rng)
        return dict(l=l, s=s, j=j, in_term=f'{s + 1}{LETTERS[l // 2]}{st}<{frac(j)}>',
                    text=f'({s + 1}{LETTERS[l // 2]}{st}<{frac(j)}>)')

    def low():
        l = 2 * rng.randrange(0, 7)
        j = rng.choice(list(trange(l, 1)))
        return dict(l=l, s='?', j=j, text=f'{rng.randrange(3, 12)}{LETTERS[l // 2].lower()}<{frac(j)}>')

    def par():
        j = rng.randrange(0, 22)
        return dict(l=None, s=None, j=j,
                    text=f'({frac(rng.randrange(0, 18))},{rng.choice(["", " "])}{frac(rng.randrange(0, 12))})'
                         f'{star(rng)}<{frac(j)}>')
    mk = {'C': cap, 'l': low, 'P': par, 'T': cap}
    a, b = (mk[c]() for c in (form if form != 'T' else 'TT'))
    st = star(rng)
    if form == 'T':
        conf = f'{core(rng)}.{rng.randrange(4, 9)}{rng.choice("spd")}2'
        term = f'({a["in_term"]},{rng.choice(["", " "])}{b["in_term"]}){st}'
        par_ = -1 if '*' in term else 1
    else:
        mid = f'({rng.randrange(1, 8)}{rng.choice(LETTERS[:6])}).' if form == 'CC' and rng.random() < 0.3 else ''
        conf = f'{core(rng)}.{a["text"]}.{core(rng) + "." if rng.random() < 0.6 else ""}{mid}{b["text"]}'
        term = f'({frac(a["j"])},{rng.choice(["", " "])}{frac(b["j"])}){st}'
        par_ = -1 if st else 1
    J = rng.choice(list(trange(a['j'], b['j'])))
    return dict(coupling='JJ', conf=conf, term=term, J=J, par=par_, form=form,
                q=dict(lc=a['l'], sc=a['s'], lo=b['l'], so=b['s'], jc=a['j'], jo=b['j']))


GENS = dict(LS=gen_LS, JK=gen_JK, LK=gen_LK, JJ=gen_JJ)


def gen_any(rng, big=True):
    return GENS[rng.choice(['LS', 'LS', 'JK', 'LK', 'JJ'])](rng, big)


def level_term(rng, uid, J, par=None, style=None):
    """a term of given J (any notation), with a configuration no other uid can have"""
    par = par if par is not None else rng.choice([1, -1])
    st = '*' if par < 0 else ''
    style = style or rng.choice(['LS', 'LS', 'LS', 'JK', 'LK', 'JJ'])
    head = f'{uid + 3}{rng.choice("spdf")}'
    S = J % 2 if rng.random() < 0.5 else J % 2 + 2
    if style == 'LS':
        L = rng.choice([x for x in trange(J, S) if x % 2 == 0 and x // 2 < 20] or [0])
        return dict(conf=f'{head}.{rng.randrange(4, 9)}{rng.choice("spd")}', term=f'{S + 1}{LETTERS[L // 2]}{st}', J=J,
                    par=par)
    K = rng.choice(list(trange(J, 1)))
    if style == 'JK':
        lo = 2 * rng.randrange(0, 4)
        jc = rng.choice(list(trange(K, lo)))
        return dict(conf=f'{head}13.({1 + (jc + 1) % 2 + 1}{rng.choice("SPDFG")}*<{frac(jc)}>).6{LETTERS[lo // 2].lower()}',
                    term=f'2[{frac(K)}]{st}', J=J, par=par)
    if style == 'LK':
        L = rng.choice([x for x in trange(K, K % 2) if x % 2 == 0] or [0])
        return dict(conf=f'{head}.({2 - (K + L) % 2}{rng.choice("SPDF")}).6{rng.choice("spdf")}',
                    term=f'{LETTERS[min(L // 2, 19)]} 2[{frac(K)}]{st}', J=J, par=par)
    jc = rng.randrange(0, 8)
    jo = rng.choice(list(trange(J, jc)))
    return dict(conf=f'{head}13.(2F*<{frac(jc)}>).6s.6p.(3P*<{frac(jo)}>)',
                term=f'({frac(jc)},{rng.choice(["", " "])}{frac(jo)}){st}', J=J, par=par)


def relative(rng, t, levels):
    """the level described by t, given the configuration of an older one, and its term where J allows it"""
    def ls(x):
        return '[' not in x['term'] and '(' not in x['term'] and '(' not in x['conf']

    olds = [x for x in levels if ls(x) and ls(t)]
    for same_term in (True, False):
        for old in olds:
            new = dict(t, conf=old['conf'])
            S, L = int(old['term'][0]) - 1, 2 * LETTERS.index(old['term'][1])
            if same_term:
                if t['J'] not in trange(L, S):
                    continue
                new.update(term=old['term'], par=old['par'])
            if not any((new['conf'], new['term'], new['J']) == (x['conf'], x['term'], x['J']) for x in levels):
                return new
    return t


def logu(rng, lo, hi):
    import math
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def signed(rng, lo, hi, zero=0.0):
    if rng.random() < zero:
        return 0.0
    return rng.choice([1, -1]) * logu(rng, lo, hi)


class Spec:
    """a plain description of an atom: the workload, and the initial state of every shadow model"""

    def __init__(self, rng, nlev=(2, 6), I=None, Jmax=7, J=None, hf=0.7, B=0.5, same_statistics=True, lande=1.0,
                 energies='spread', style=None, aliases=0.3, par=None):
        self.I = rng.choice(I if I is not None else [0, 1, 2, 3, 5])
        self.B = signed(rng, 1e-3, 1e4) if rng.random() < B else 0.0        # gauss
        n = rng.randint(*nlev)
        odd = rng.randrange(2)
        self.levels = []
        es = []
        for i in range(n):
            if energies == 'spread':
                es.append(rng.uniform(0, 1e15))
            elif energies == 'close':
                es.append(rng.choice([0.0, 0.0, rng.uniform(-1e9, 1e9), rng.uniform(0, 1e12)]))
            else:
                es.append(energies(rng, i))
        if energies == 'spread' and rng.random() < 0.6:
            es[rng.randrange(n)] = 0.0
        for i in range(n):
            if J is not None:
                Ji = rng.choice(J)
            else:
                Ji = rng.choice([j for j in range(0, Jmax + 1) if not same_statistics or j % 2 == odd] or [odd])
            t = level_term(rng, i, Ji, par=rng.choice(par) if par else None, style=style)
            if self.levels and rng.random() < 0.8:
                t = relative(rng, t, rng.sample(self.levels, len(self.levels)))
            h = rng.random() < hf
            self.levels.append(dict(t, E=es[i], lande=signed(rng, 0.05, 3, 0.1) if rng.random() < lande else None,
                                    A=signed(rng, 1e5, 2e10, .1) if h else 0.0,
                                    Bq=signed(rng, 1e5, 5e9, .3) if h else 0.0,
                                    C=signed(rng, 1e2, 1e7, .5) if h else 0.0,
                                    alias=f'alias{i}' if rng.random() < aliases else None))
        for i, l in enumerate(self.levels):
            l['idx'] = i
            l['name'] = f'{l["conf"]} {l["term"]}{frac(l["J"])}'

    def build(self, rng, m=None, attach='add'):
        import atomtoolkit as tk
        from atomtoolkit.atom import Atom
        I = num(rng, self.I)
        atom = Atom(f'X{self.I}', I=I, B=self.B * tk.G if self.B else tk.Q_(0.0, 'G'))
        if m:
            m.op('atom', frac(self.I), self.B)
        out = []
        for l in self.levels:
            e = self.level(rng, l)
            if m:
                m.op('add', l['name'], l['E'], l['lande'], l['A'], l['Bq'], l['C'])
            if attach == 'add':
                atom.add_level(e)
            elif attach == 'append':
                atom.levels.append(e)
            if l['alias']:
                e.alias = l['alias']
            out.append(e)
        return atom, out

    @staticmethod
    def level(rng, l):
        import atomtoolkit as tk
        from atomtoolkit.atom import EnergyLevel
        from atomtoolkit.term import MultiTerm, Term
        r = random.Random(rng.random())     # drawn for every build, so that two builds draw alike
        if 'pct' not in l:
            l['pct'], l['mix'] = r.choice([100.0, 97, 60.5]), []
            if l['lande'] is not None:
                # admixtures of the same J: with the g-factor given, the leading term decides everything
                l['mix'] = [(level_term(r, 60 + k, l['J'], par=l['par'] * r.choice([1, 1, 1, -1])), r.uniform(1, 45))
                            for k in range(r.choice([0, 0, 0, 1, 2]))]
        term = Term(l['conf'], l['term'], num(rng, l['J']), percentage=l['pct'])
        mix = [Term(t['conf'], t['term'], num(rng, l['J']), percentage=p) for t, p in l['mix']]
        if mix:
            mix.insert(r.randrange(len(mix) + 1), term)
            term = MultiTerm(*mix)
        return EnergyLevel(term, l['E'] * tk.Hz, lande=l['lande'],
                           hfA=l['A'] * tk.Hz, hfB=l['Bq'] * tk.Hz, hfC=l['C'] * tk.Hz)

    def hf_shift(self, l, F):
        a, b, c = o.hf_coeffs(self.I, l['J'], F)
        return a * l['A'] + b * l['Bq'] + c * l['C']

    def z_shift(self, l, F, m, quad=0.0, B=None):
        B = self.B if B is None else B
        return o.g_F(l['lande'], self.I, l['J'], F) * m / 2 * o.MU_B_HZ_PER_G * B + quad * B * B

    def tol(self, l, B=None):
        """absolute tolerance for energies (Hz): float cancellation at the scale of what is added up"""
        B = self.B if B is None else B
        return 1e-3 + 1e-14 * (abs(l['E']) + 1e3 * (abs(l['A']) * 60 + abs(l['Bq']) + abs(l['C']))
                               + 1e2 * abs((l['lande'] or 0) * 20 * B) * o.MU_B_HZ_PER_G)


def Fs(I, J):
    return list(trange(I, J))


def Ms(F):
    return list(range(-F, F + 1, 2))


def fk(F):
    return f'F={frac(F)}'


def mk(M):
    return f'mF={frac(M)}'


class WarningLog:
    """collects warnings issued by the library during a block"""

    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.rec = self.cm.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *a):
        return self.cm.__exit__(*a)

    @property
    def texts(self):
        return [str(w.message) for w in self.rec]


def dbl(x):
    """a quantum number reported by the library -> doubled integer (None if it is not a half-integer)"""
    if x is None:
        return None
    t = 2 * float(x)
    return int(round(t)) if abs(t - round(t)) < 1e-9 else None


# --- which sub-transitions exist --------------------------------------------------------------------------------------

def pair_kinds(l0, l1):
    return o.kinds(l0['J'], l0['par'], l1['J'], l1['par'], l0 is l1)


def hf_pairs(I, l0, l1):
    """{(F0, F1): ranks that couple the pair} over all pairs; and the leading rank of the two levels"""
    kd = pair_kinds(l0, l1)
    rs = o.ranks(kd)
    return {(F0, F1): [k for k in rs if o.hf_allowed(k, I, l0['J'], F0, l1['J'], F1)]
            for F0 in Fs(I, l0['J']) for F1 in Fs(I, l1['J'])}, o.rank(kd)


def z_pairs(F0, F1, rs):
    """{(m0, m1): ranks among rs that couple the pair}"""
    return {(a, b): [k for k in rs if o.z_allowed(k, F0, a, F1, b)] for a in Ms(F0) for b in Ms(F1)}


def must(rs, lead):
    """True: has to exist; False: must not exist; None: either (carried by a weaker multipole only)"""
    return True if lead in rs else None if rs else False
