import itertools

import lib
import oracle as o
from engine import Skip
from lib import Fs, Ms, Spec, dbl, fk, hf_pairs, mk, must, num, z_pairs
from machine import history

ID = 'C12'
RULE = ('Each case builds two levels of random J, parity, notation and nuclear spin (or one level with itself), '
        'classifies the transition and censuses all hyperfine and Zeeman sub-transitions against exact 6j/3j zeros.')
ASSUMPTIONS = ['The two levels of a pair have the same number of electrons: their J differ by an integer.',
               'Parity is read from the star of the term symbol.',
               'A pair coupled only by a non-leading multipole that the parent also allows may be listed or not.']


def listed(m, t, sub, name):
    """sub-transitions of t as {unordered pair of sublevel keys: transition}; checks identity and uniqueness"""
    out = {}
    for s in t.values():
        a, b = s.E_1, s.E_2
        if a.parent is not t.E_1:
            a, b = b, a
        m.ok(a.parent is t.E_1 and b.parent is t.E_2, 'joins-own-sublevels', lambda: f'{s.name} in {name}')
        k = (dbl(getattr(a.term, sub)), dbl(getattr(b.term, sub)))
        if t.E_1 is t.E_2:
            k = tuple(sorted(k))
        m.ok(k not in out, 'once', lambda: f'{name}: pair {k} listed twice')
        out[k] = s
        m.ok(any(bool(x) for x in s.allowed_types), 'listed-are-allowed', s.name)
    return out


def census(rng, m, atom, t, l0, l1, I, zfrac=1.0):
    """t.E_1 has description l0, t.E_2 l1"""
    kd = lib.pair_kinds(l0, l1)
    name = f'I={I}/2 {t.E_1.name} - {t.E_2.name}'
    m.ok(tuple(bool(x) for x in t.allowed_types) == kd, 'classified',
         lambda: f'{name}: {t.allowed_types} vs {kd}')
    m.seen('kind-' + ''.join(n for n, x in zip(('E1', 'M1', 'E2'), kd) if x))
    hp, lead = hf_pairs(I, l0, l1)
    got = listed(m, t, 'F', name)
    same = t.E_1 is t.E_2
    for (F0, F1), rs in hp.items():
        if same and F0 > F1:
            continue
        need = must(rs, lead)
        here = (F0, F1) in got
        m.ok(need is None or need == here, 'hf-exists', lambda: f'{name} F={F0}/2,{F1}/2: listed {here}, ranks {rs}')
        m.seen('hf-allowed' if here else 'hf-forbidden')
        if rng.random() < 0.2:
            n0, n1 = f'{t.E_1.name} {fk(F0)}', f'{t.E_2.name} {fk(F1)}'
            if here:
                m.same(atom.transitions[n0, n1], got[F0, F1], 'hf-in-atom', name)
            else:
                m.raises(KeyError, lambda: atom.transitions[n0, n1], 'hf-not-in-atom', f'{n0}, {n1}')
    m.ok(all(k in hp for k in got), 'hf-known', name)
    res = {k: None for k in got}
    for (F0, F1), s in got.items():
        if rng.random() > zfrac:
            continue
        rs = hp[F0, F1]
        zl = 1 if 1 in rs else 2
        if s.E_1.parent is not t.E_1:
            zgot = {}
            for (b, a), z in listed(m, s, 'mF', s.name).items():
                zgot[a, b] = z
        else:
            zgot = listed(m, s, 'mF', s.name)
        zs = s.E_1 is s.E_2
        if not zs and same and dbl(s.E_1.term.F) != F0:
            zgot = {(b, a): z for (a, b), z in zgot.items()}
        for (m0, m1), zr in z_pairs(F0, F1, rs).items():
            if zs and m0 > m1:
                continue
            need = must(zr, zl)
            here = (m0, m1) in zgot
            m.ok(need is None or need == here, 'z-exists',
                 lambda: f'{name} F={F0}/2,{F1}/2 m={m0}/2,{m1}/2: listed {here}, ranks {zr}')
            m.seen('z-allowed' if here else 'z-forbidden')
            if not here and rng.random() < 0.05:
                n0, n1 = (f'{e.name} {fk(F)} {mk(M)}' for e, F, M in ((t.E_1, F0, m0), (t.E_2, F1, m1)))
                m.raises(KeyError, lambda: atom.transitions[n0, n1], 'z-not-in-atom', f'{n0}, {n1}')
        res[F0, F1] = frozenset(zgot)
    m.state(I, l0['J'], l1['J'], kd)
    return res


def pair(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    spec = Spec(rng, nlev=(2, 2), I=list(range(0, 8)), Jmax=9, aliases=0.0,
                energies=rng.choice(['spread', 'close']))
    l0, l1 = spec.levels
    if rng.random() < 0.7:
        # near the edge of the triangle rule
        d = rng.choice([0, 2, 2, 4, 4, 6])
        l1.update(lib.level_term(rng, 1, abs(l0['J'] - d) if rng.random() < 0.5 else l0['J'] + d, par=l1['par']))
        l1['name'] = f'{l1["conf"]} {l1["term"]}{o.frac(l1["J"])}'
    if (spec.I + 1) * (l0['J'] + 1) * (spec.I + 1) * (l1['J'] + 1) > 4000:
        raise Skip
    res = []
    for swap in (False, True):
        atom, (e0, e1) = spec.build(rng, m if not swap else None)
        if rng.random() < 0.3:
            list(e0.values())
        t = Transition(e1, e0) if swap else Transition(e0, e1)
        if rng.random() < 0.5:
            atom.add_transition(t)
        if rng.random() < 0.3:
            atom.B = rng.uniform(-1e5, 1e5) * tk.G
        if rng.random() < 0.2:
            e0.level, e1.level = e1.level, e0.level
        r = census(rng, m, atom, t, *((l1, l0) if swap else (l0, l1)), spec.I)
        if swap:
            r = {(b, a): z if z is None else frozenset((y, x) for x, y in z) for (a, b), z in r.items()}
        res.append(r)
    m.ok(res[0] == res[1], 'order-independent', lambda: f'{l0["name"]}, {l1["name"]} I={spec.I}/2: {res}')
    m.seen('pairs')


def internal(rng, m):
    from atomtoolkit.atom import Transition
    spec = Spec(rng, nlev=(1, 2), I=list(range(0, 8)), Jmax=8, same_statistics=False, aliases=0.0)
    atom, levels = spec.build(rng, m)
    if rng.random() < 0.5:
        atom.populate_internal_transitions()
    for e, l in zip(levels, spec.levels):
        if (spec.I + 1) ** 2 * (l['J'] + 1) ** 2 > 4000:
            continue
        try:
            t = atom.transitions[e, e]
        except KeyError:
            t = atom.add_transition(Transition(e, e))
        census(rng, m, atom, t, l, l, spec.I)
        m.seen('internal')


def network(rng, m):
    """many levels: the atom lists allowed transitions only, also after populating everything"""
    spec = Spec(rng, nlev=(3, 5), I=[0, 1, 2, 3], Jmax=5, aliases=0.0, energies=rng.choice(['spread', 'close']))
    atom, levels = spec.build(rng, m)
    atom.populate_transitions()
    byid = {id(e): l for e, l in zip(levels, spec.levels)}
    want = {frozenset((l0['name'], l1['name'])) for l0, l1 in itertools.combinations(spec.levels, 2)
            if any(lib.pair_kinds(l0, l1))}
    got = [frozenset((t.E_1.name, t.E_2.name)) for t in atom.transitions.values() if t.E_1 is not t.E_2]
    m.eq(sorted(map(sorted, got)), sorted(map(sorted, want)), 'network', '')
    ts = list(atom.transitions.values())
    rng.shuffle(ts)
    for t in ts[:4]:
        census(rng, m, atom, t, byid[id(t.E_1)], byid[id(t.E_2)], spec.I, 0.5)
    for l0, l1 in itertools.combinations(spec.levels, 2):
        if frozenset((l0['name'], l1['name'])) not in want:
            m.raises(KeyError, lambda: atom.transitions[l0['name'], l1['name']], 'forbidden-absent')
            m.seen('forbidden-pairs')


SCENARIOS = {'pair': (300, 4000, pair), 'internal': (80, 800, internal), 'network': (60, 600, network),
             'history': (160, 2500, history(['exact'], extra=('new',) * 2 + ('replace-t',)))}
REQUIRED = {'kind-E1': 40, 'kind-M1E2': 20, 'kind-E2': 5, 'kind-': 30, 'hf-forbidden': 500, 'z-forbidden': 5000,
            'hf-allowed': 500, 'z-allowed': 2000, 'internal': 50, 'pairs': 100, 'forbidden-pairs': 10,
            'history-exact': 500}
