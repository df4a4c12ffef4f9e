import math

import lib
import oracle as o
from engine import Skip
from lib import Fs, Ms, Spec, fk, hf_pairs, mk, z_pairs
import machine

ID = 'C18'
RULE = ('Each case builds 3-6 well separated levels joined by random allowed transitions with A coefficients in random '
        'units (some missing), performs a history of changes (A set and re-set, transitions added, re-added, removed, '
        'fields and constants changed, levels moved without crossing) and after each step compares the branching ratios '
        'and lifetimes of levels, hyperfine and Zeeman sublevels with a shadow table of decays.')
ASSUMPTIONS = ['Levels joined by a transition keep their order in energy and are further apart than their substructure.',
               'A sub-transition that only a non-leading multipole allows has zero A and may be named or not.',
               'How a missing A coefficient is reported by state_lifetime is left open, except that it is an error.']
UNITS = [('Hz', 1.0), ('kHz', 1e3), ('MHz', 1e6), ('GHz', 1e9), ('1/s', 1.0), ('1/us', 1e6), ('1/ns', 1e9)]


def quantity(rng, hz):
    import atomtoolkit as tk
    u, f = rng.choice(UNITS)
    return tk.Q_(hz / f, u)


class World:
    def __init__(self, rng, m):
        # optical down to microwave decays, the substructure shrinking along
        self.scale = s = rng.choice([1.0, 1.0, 1.0, 1e-2, 1e-5])
        self.spec = Spec(rng, nlev=(3, 6), I=[0, 0, 1, 2, 3], Jmax=5, energies=lambda r, i: ((i + 1) * 1e14
                         + r.uniform(0, 5e13)) * s, hf=0.7, B=0.5, par=None)
        sp = self.spec
        rng.shuffle(sp.levels)                 # insertion order is not energy order
        for i, l in enumerate(sp.levels):
            for k in ('A', 'Bq', 'C'):
                l[k] = max(-1e9, min(1e9, l[k])) * s
        sp.B = max(-1e3, min(1e3, sp.B)) * s
        self.atom, self.levels = sp.build(rng, m)
        self.ts = {}                            # frozenset of indices -> (transition, A)
        self.inner = {}
        n = len(self.levels)
        self.free = [(i, j) for i in range(n) for j in range(i, n) if any(lib.pair_kinds(sp.levels[i], sp.levels[j]))]
        rng.shuffle(self.free)

    def upper(self, i, j):
        return (i, j) if self.spec.levels[i]['E'] > self.spec.levels[j]['E'] else (j, i)

    def decays(self, i):
        """[(lower index, A)] of level i"""
        out = []
        for p, (t, A) in self.ts.items():
            if i in p and len(p) == 2:
                j = next(x for x in p if x != i)
                if self.upper(i, j)[0] == i:
                    out.append((j, A))
        return out

    def sub_decays(self, i, F, M=None):
        """{name of the lower sublevel: (A or None, must be there)}"""
        sp, out = self.spec, {}
        li = sp.levels[i]
        for j, A in self.decays(i):
            lj = sp.levels[j]
            hp, lead = hf_pairs(sp.I, li, lj)
            for G in Fs(sp.I, lj['J']):
                rs = hp[F, G]
                if not rs:
                    continue
                w = o.hf_strength(lead, sp.I, li['J'], F, lj['J'], G)
                if M is None:
                    out[f'{lj["name"]} {fk(G)}'] = (None if A is None else A * w, lead in rs)
                    continue
                if lead not in rs:
                    for N in Ms(G):
                        out[f'{lj["name"]} {fk(G)} {mk(N)}'] = (None if A is None else 0.0, False)
                    continue
                zl = 1 if 1 in rs else 2
                for (a, b), zr in z_pairs(F, G, rs).items():
                    if a == M and zr:
                        v = o.z_strength(zl, F, a, G, b) if zl in zr else 0.0
                        out[f'{lj["name"]} {fk(G)} {mk(b)}'] = (None if A is None else A * w * v, zl in zr)
        return out


def spell(rng, w, i):
    e = w.levels[i]
    keys = [e.name]
    if w.spec.levels[i]['alias']:
        keys += [w.spec.levels[i]['alias']] * 2
    order = sorted(range(len(w.levels)), key=lambda k: w.spec.levels[k]['E'])
    keys.append(order.index(i))
    return rng.choice(keys)


def compare(rng, m, w, key, obj, want, what):
    """want: {lower name: (A, must)}"""
    miss = any(a is None for a, must in want.values())
    sure = any(a is None for a, must in want.values() if must)
    tot = sum(a or 0.0 for a, _ in want.values())
    if miss:
        if not sure:
            return
        m.raises(ValueError, lambda: w.atom.compute_branching_ratios(key), 'missing-A', what)
        try:
            r = w.atom.state_lifetime(key)
        except Exception:
            r = None
        m.ok(r is None, 'missing-A-lifetime', lambda: f'{what}: {r}')
        m.seen('missing')
        return
    life = w.atom.state_lifetime(key)
    m.eq(str(life.dimensionality), '[time]', 'lifetime-unit', what)
    life = float(life.to('s').magnitude)
    if not want or tot == 0:
        m.ok(math.isinf(life) and life > 0, 'stable', lambda: f'{what}: {life}')
        m.seen('stable-levels')
        if want:
            return
    else:
        m.close(life, 2 * math.pi / tot, 'lifetime', what, rel=1e-9)
    got = w.atom.compute_branching_ratios(key)
    for k, (a, must) in want.items():
        if must:
            m.ok(k in got, 'names', lambda: f'{what}: {k} missing from {list(got)}')
    for k, r in got.items():
        m.ok(k in want, 'names', lambda: f'{what}: {k} is not a lower level it decays to')
        m.ok(abs(float(r) - want[k][0] / tot) < 1e-10, 'ratio', lambda: f'{what}: {k}: {r} expected {want[k][0] / tot}')
    if want:
        m.ok(abs(sum(map(float, got.values())) - 1) < 1e-9, 'sum', lambda: f'{what}: {sum(got.values())}')
        m.seen('channels', len(got))
        m.seen('multi' if len(got) > 1 else 'single')
    m.state(what.split()[-1], len(want), round(math.log10(tot), 1) if tot else 0)


def audit(rng, m, w, n=3):
    sp = w.spec
    for i in rng.sample(range(len(w.levels)), min(n, len(w.levels))):
        l = sp.levels[i]
        want = {sp.levels[j]['name']: (A, True) for j, A in w.decays(i)}
        key = spell(rng, w, i)
        compare(rng, m, w, key, w.levels[i], want, f'{key!r} level')
        if rng.random() < 0.6:
            F = rng.choice(Fs(sp.I, l['J']))
            if rng.random() < 0.5:
                compare(rng, m, w, f'{l["name"]} {fk(F)}', None, w.sub_decays(i, F), f'{l["name"]} {fk(F)} hf')
                m.seen('hf')
            else:
                M = rng.choice(Ms(F))
                key = f'{l["name"]} {fk(F)} {mk(M)}'
                if sp.I == 0 and rng.random() < 0.6:
                    key = f'{l["name"]} {mk(M).replace("mF", "mJ")}'
                    m.seen('mJ-key')
                compare(rng, m, w, key, None, w.sub_decays(i, F, M), f'{key} z')
                m.seen('z')


def history(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    w = World(rng, m)
    if not w.free:
        raise Skip
    sp, pmiss = w.spec, rng.choice([0, 0, 0.15])

    def newA():
        return None if rng.random() < pmiss else lib.logu(rng, 1e-3, 1e9)

    def add():
        if not w.free:
            return
        i, j = w.free.pop()
        if rng.random() < 0.5:
            i, j = j, i
        A = newA()
        q = None if A is None else quantity(rng, A)
        m.op('transition', i, j, A)
        how = rng.randrange(3)
        if how == 0:
            t = w.atom.add_transition(Transition(w.levels[i], w.levels[j], A=q))
        elif how == 1:
            t = w.atom.add_transition((w.levels[i].name, w.levels[j].name), A=q)
        else:
            t = w.atom.add_transition((w.levels[i], w.levels[j]))
            if A is not None:
                t.A = q
        w.ts[frozenset((i, j))] = (t, A)
        if i == j:
            m.seen('internal')

    for _ in range(rng.randint(1, 5)):
        add()
    audit(rng, m, w)
    for _ in range(rng.randint(3, 8)):
        k = rng.choice(['add', 'set', 'set', 'set', 'remove', 'readd', 'edit', 'move', 'unit'])
        if k == 'add':
            add()
        elif w.ts:
            p = rng.choice(list(w.ts))
            t, A = w.ts[p]
            if k == 'set':
                A = newA()
                t.A = None if A is None else quantity(rng, A)
                w.ts[p] = (t, A)
            elif k == 'unit' and A is not None:
                t.A = quantity(rng, A)
            elif k == 'remove' and rng.random() < 0.6:
                i, *j = p
                j = j[0] if j else i
                del w.atom.transitions[w.levels[i].name, w.levels[j].name]
                del w.ts[p]
                m.seen('removed')
            elif k == 'readd':
                w.atom.add_transition(t)
            elif k == 'edit':
                e = rng.choice(w.levels)
                l = sp.levels[w.levels.index(e)]
                l['A'], l['lande'] = lib.signed(rng, 1e5, 1e9) * w.scale, lib.signed(rng, .1, 3)
                e.hfA, e.lande = l['A'] * tk.Hz, l['lande']
                sp.B = lib.signed(rng, 1e-2, 1e3) * w.scale
                w.atom.B = sp.B * tk.G
            elif k == 'move':
                i = rng.randrange(len(w.levels))
                d = rng.uniform(-1e13, 1e13) * w.scale
                sp.levels[i]['E'] += d
                w.levels[i].level = sp.levels[i]['E'] * tk.Hz
                # keep the order in energy that the transitions were created with
                es = sorted(l['E'] for l in sp.levels)
                if any(b - a < 2e13 * w.scale for a, b in zip(es, es[1:])):
                    sp.levels[i]['E'] -= d
                    w.levels[i].level = sp.levels[i]['E'] * tk.Hz
            m.op(k, sorted(p), w.ts[p][1] if p in w.ts else None)
        audit(rng, m, w, 2)
    audit(rng, m, w, 6)


def extremes(rng, m):
    """many decays with A coefficients over many decades, in mixed units"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, EnergyLevel, Transition
    from atomtoolkit.term import Term
    n = rng.choice([1, 2, rng.randint(3, 12), rng.randint(3, 12)])
    atom = Atom('Y', I=rng.choice([0, 0.5]))
    s = rng.choice([1, 1, 1e-3, 1e-6]) * tk.Hz
    up = EnergyLevel(Term('7p', '2P*', 0.5), 9e14 * s, lande=1.0)
    lows = [EnergyLevel(Term(f'{k + 1}s', '2S', 0.5), k * 1e13 * s, lande=2.0) for k in range(n)]
    over = [EnergyLevel(Term(f'{k + 1}d', '2D', 1.5), (1e15 + k * 1e13) * s, lande=2.0) for k in range(3)]
    # built with a transition list: levels come along
    span = rng.choice([(1e-8, 1e12)] * 3 + [(1e-16, 1e-9)])      # the slowest live for millennia
    A = [lib.logu(rng, *span) for _ in lows]
    m.op('A', *A)
    ts = [Transition(*rng.sample([up, e], 2), A=quantity(rng, a)) for e, a in zip(lows, A)]
    ts += [Transition(*rng.sample([up, e], 2), A=rng.choice([None, 1e15 * tk.Hz])) for e in over]
    rng.shuffle(ts)
    atom = Atom('Y', I=rng.choice([0, 0.5]), transitions=ts)
    got = atom.compute_branching_ratios(up.name)
    m.eq(set(got), {e.name for e in lows}, 'names', 'all lower levels')
    for e, a in zip(lows, A):
        m.close(float(got[e.name]), a / sum(A), 'ratio', e.name, rel=1e-9)
    m.close(atom.state_lifetime(up.name).to('s').magnitude, 2 * math.pi / sum(A), 'lifetime', '', rel=1e-9)
    m.ok(abs(sum(got.values()) - 1) < 1e-9, 'sum')
    m.seen('extremes')


SCENARIOS = {'history': (280, 2800, history), 'extremes': (40, 300, extremes),
             'machine': (240, 4000, machine.history(['rates'], extra=('A',) * 3 + ('new',) * 3, apart=True))}
REQUIRED = {'missing': 30, 'stable-levels': 50, 'multi': 300, 'hf': 100, 'z': 100, 'mJ-key': 10, 'removed': 20,
            'internal': 20, 'extremes': 15,
            'history-rates': 1500, 'history-sub-rates': 1000, 'history-missing': 100}
