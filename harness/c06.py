import itertools

import lib
import oracle as o
from lib import Fs, Ms, Spec, dbl, fk, mk, num
from machine import history

ID = 'C06'
RULE = ('Each case builds an atom from a random specification (any nuclear spin, any notation) and censuses every '
        'sublevel of every level, in a random order and along random access paths.')
ASSUMPTIONS = ['A level is in one atom at a time, and once its sublevels have been looked at it is only handed on to '
               'atoms of the same nuclear spin; sublevels are looked at after it has been put into the atom.']


def enter(rng, m, spec):
    """bring the levels into an atom along one of the ways there are"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, Transition
    I = num(rng, spec.I)
    how = rng.choice(['add', 'append', 'ctor', 'setitem', 'eager', 'transition', 'ctor-transition'])
    levels = [Spec.level(rng, l) for l in spec.levels]
    m.op('enter', how, lib.frac(spec.I) if hasattr(lib, 'frac') else spec.I, [l['name'] for l in spec.levels])
    m.seen('enter-' + how)
    B = spec.B * tk.G
    if how == 'ctor':
        return Atom('X', I=I, B=B, levels=levels), levels
    if how == 'ctor-transition':
        ts = [Transition(a, b) for a, b in zip(levels, levels[1:])]
        return Atom('X', I=I, B=B, transitions=ts), levels
    atom = Atom('X', I=I, B=B)
    for i, e in enumerate(levels):
        if how == 'append':
            atom.levels.append(e)
        elif how == 'setitem':
            atom.levels[f'al{i}'] = e
        elif how == 'eager':
            atom.add_level(e, populate_sublevels=True)
        elif how == 'transition' and i:
            atom.add_transition(Transition(levels[i - 1], e))
        elif how != 'transition':
            atom.add_level(e)
    return atom, levels


def census(rng, m, atom, e, l, I):
    from atomtoolkit.atom import EnergyLevel, HFLevel, ZLevel
    J = l['J']
    want = {fk(F): F for F in Fs(I, J)}
    path = rng.randrange(6)
    if path == 0:
        n = len(e)
        m.eq(n, len(want), 'hf-count', l['name'])
    elif path == 1:
        F = rng.choice(Fs(I, J))
        m.eq(dbl(e[fk(F)].term.F), F, 'hf-F', l['name'])
    elif path == 2:
        F = rng.choice(Fs(I, J))
        M = rng.choice(Ms(F))
        m.eq(dbl(atom.levels[f'{l["name"]} {fk(F)} {mk(M)}'].term.mF), M, 'z-mF', l['name'])
    elif path == 3:
        list(e)
    elif path == 4:
        e.sublevels()
    keys = list(e.keys())
    m.ok(len(keys) == len(set(keys)), 'unique', l['name'])
    m.eq(sorted(keys), sorted(want), 'hf-keys', f'I={I}/2 {l["name"]}')
    m.eq(list(e), keys, 'iter', l['name'])
    m.eq(len(e), len(want), 'len', l['name'])
    m.eq([k for k, _ in e.items()], keys, 'items', l['name'])
    for a, b, c in itertools.zip_longest(e.values(), e.sublevels(), (v for _, v in e.items())):
        m.ok(a is b and b is c, 'same-objects', l['name'])
    m.same(e.manifold, e, 'manifold', l['name'])
    m.same(e.atom, atom, 'atom', l['name'])
    m.eq(e.name, l['name'], 'level-name', '')
    m.same(atom.levels[l['name']], e, 'found', l['name'])
    total = 0
    order = list(want.items())
    rng.shuffle(order)
    for k, F in order:
        h = e[k]
        name = f'{l["name"]} {k}'
        m.ok(type(h) is HFLevel, 'hf-type', name)
        m.eq(h.name, name, 'hf-name', name)
        m.same(atom.levels[name], h, 'hf-found', name)
        m.same(h.parent, e, 'hf-parent', name)
        m.same(h.manifold, e, 'hf-manifold', name)
        m.same(h.atom, atom, 'hf-atom', name)
        same_numbers(m, h, e, name)
        m.eq((dbl(h.term.J), dbl(h.term.F), h.term.mF), (J, F, None), 'hf-numbers', name)
        zk = [mk(M) for M in Ms(F)]
        if rng.random() < 0.5:
            m.eq(len(h), F + 1, 'z-count', name)
        m.eq(sorted(h.keys()), sorted(zk), 'z-keys', name)
        m.eq(list(h), list(h.keys()), 'z-iter', name)
        m.eq(len(h.sublevels()), F + 1, 'z-count', name)
        for M in Ms(F):
            z = h[mk(M)]
            zn = f'{name} {mk(M)}'
            m.ok(type(z) is ZLevel, 'z-type', zn)
            m.eq(z.name, zn, 'z-name', zn)
            m.same(z.parent, h, 'z-parent', zn)
            m.same(z.manifold, e, 'z-manifold', zn)
            m.same(z.atom, atom, 'z-atom', zn)
            m.eq((dbl(z.term.J), dbl(z.term.F), dbl(z.term.mF)), (J, F, M), 'z-numbers', zn)
            same_numbers(m, z, e, zn)
            m.same(atom.levels[zn], z, 'z-found', zn)
            m.eq(len(z.sublevels()), 0, 'z-leaf', zn)
            if I == 0:
                m.same(e[f'mJ={lib.frac(M)}'], z, 'mJ', zn)
            total += 1
        m.same(e[k], h, 'stable', name)
    m.eq(total, (I + 1) * (J + 1), 'states', f'I={I}/2 J={J}/2')
    m.seen('states', total)
    m.state(I, J)
    m.eq(list(e.keys()), keys, 'stable-keys', l['name'])
    m.eq(len(atom.levels), len(set(atom.levels.keys())), 'levels-only', '')
    m.ok(all(type(x) is EnergyLevel for x in atom.levels.values()), 'levels-only', '')


def same_numbers(m, sub, lev, name):
    for a in ('conf', 'term', 'parity', 'coupling', 'quantum_nums', 'percentage', 'l', 's', 'k', 'lc', 'sc', 'jc', 'lo',
              'so', 'jo', 'J_frac'):
        m.ok(getattr(sub.term, a) == getattr(lev.term, a), 'inherited',
             lambda: f'{name}: {a} {getattr(sub.term, a)!r} vs {getattr(lev.term, a)!r}')


def tree(rng, m):
    if rng.random() < 0.12:
        spec = Spec(rng, nlev=(2, 2), I=list(range(9, 19)), J=list(range(12, 22)), same_statistics=False)
    else:
        spec = Spec(rng, nlev=(2, 5), I=list(range(0, 10)), Jmax=11, same_statistics=False)
    m.seen('many-F', max(min(spec.I, l['J']) for l in spec.levels) + 1 > 12)
    atom, levels = enter(rng, m, spec)
    order = list(zip(levels, spec.levels))
    rng.shuffle(order)
    for e, l in order:
        census(rng, m, atom, e, l, spec.I)
    # and again, after everything has been looked at and edited
    atom.B = 3 * atom.B + 2 * _unit()
    levels[0].level = levels[0].level * 1.5
    e, l = rng.choice(order)
    census(rng, m, atom, e, l, spec.I)
    m.eq(sorted(atom.levels.keys()), sorted(l['name'] for l in spec.levels), 'atom-levels', '')
    if rng.random() < 0.5:
        # handed on to another atom of the same nuclear spin, looked at in the old one or not
        from atomtoolkit.atom import Atom, Transition
        other = Atom('Y', I=num(rng, spec.I), B=rng.uniform(-10, 10) * _unit())
        way = rng.choice(['add', 'eager', 'transition'])
        if way == 'transition' and len(levels) > 1 and levels[0].term.J + levels[1].term.J == int(
                levels[0].term.J + levels[1].term.J):
            other.add_transition(Transition(levels[0], levels[1]))
            part = order_of(levels[:2], spec)
        else:
            part = rng.sample(list(zip(levels, spec.levels)), rng.randint(1, len(levels)))
            for e, _ in part:
                other.add_level(e)
        m.op('handed-on', way, [l['name'] for _, l in part])
        for e, l in part:
            census(rng, m, other, e, l, spec.I)
            m.seen('handed-on')


def order_of(levels, spec):
    return [(e, next(l for l in spec.levels if l['name'] == e.name)) for e in levels]


def _unit():
    import atomtoolkit as tk
    return tk.G


def mixtures(rng, m):
    """levels whose term is a mixture pass the whole mixture down to their sublevels"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, EnergyLevel
    from atomtoolkit.term import MultiTerm, Term
    I = rng.randrange(0, 6)
    atom = Atom('M', I=num(rng, I))
    J = rng.randrange(0, 8)
    par = rng.choice([1, -1])
    pcts = rng.sample(range(1, 99), rng.randint(2, 4))
    if rng.random() < .3:
        # equal percentages: which of the two leads is the mixture's choice
        pcts[rng.randrange(1, len(pcts))] = pcts[0]
    ts = [lib.level_term(rng, i, J, par=par, style='LS') for i in range(len(pcts))]
    terms = [Term(t['conf'], t['term'], num(rng, J), percentage=float(p)) for t, p in zip(ts, pcts)]
    m.op('mixture', I, J, [t['term'] for t in ts], pcts)
    mix = MultiTerm(*terms)
    lead = next(i for i, t in enumerate(terms) if t is mix[0])
    e = EnergyLevel(mix, rng.uniform(0, 1e14) * tk.Hz)
    atom.add_level(e)
    census(rng, m, atom, e, dict(ts[lead], name=f'{ts[lead]["conf"]} {ts[lead]["term"]}{lib.frac(J)}'), I)
    for h in e.values():
        for sub in [h] + h.sublevels():
            m.eq([t.percentage for t in sub.term.terms], sorted(map(float, pcts), reverse=True), 'mixture-kept', sub.name)
            for a, b in zip(sub.term.terms, e.term.terms):
                m.ok((a.conf, a.term, a.J, a.F, a.mF) == (b.conf, b.term, b.J, sub.term.F, sub.term.mF),
                     'mixture-components', sub.name)
    m.seen('mixtures')


SCENARIOS = {'tree': (160, 1500, tree), 'mixtures': (60, 500, mixtures),
             'history': (160, 2500, history(['struct']))}
REQUIRED = {'many-F': 4, 'states': 8000, 'check:z-parent': 8000, 'check:mJ': 100, 'mixtures': 20, 'enter-ctor': 5, 'enter-eager': 5,
            'enter-setitem': 5, 'enter-transition': 5, 'enter-ctor-transition': 5, 'enter-append': 5,
            'history-census': 1500, 'op-saveload': 40, 'op-replace-l': 40, 'handed-on': 60}
