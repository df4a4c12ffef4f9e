import itertools

import lib
import oracle as o
from lib import Fs, Ms, Spec, fk, hf_pairs, mk, must, num, z_pairs
from machine import history

ID = 'C16'
RULE = ('Each case performs a random history of adding, re-adding and removing levels and transitions (by object, name, '
        'alias and rank, with and without populated substructure) and after every step compares the complete listing, '
        'and samples of reachable and unreachable sublevels, sub-transitions and aliases, with a shadow set.')
ASSUMPTIONS = ['A transition enters the atom through add_transition, append, or item assignment.',
               'Aliases of sublevels and sub-transitions are not claimed to return when their parent is re-added.']


class Model:
    def __init__(self, spec, levels):
        self.spec, self.lv = spec, levels
        self.levels = set()
        self.trans = {}                 # frozenset of indices -> transition object
        self.lalias = {}                # alias -> (index, object)
        self.talias = {}                # alias -> (pair, object)

    def drop_level(self, i):
        self.levels.discard(i)
        for p in [p for p in self.trans if i in p]:
            self.drop_trans(p)
        self.lalias = {a: v for a, v in self.lalias.items() if v[0] != i}

    def drop_trans(self, p):
        self.trans.pop(p, None)
        self.talias = {a: v for a, v in self.talias.items() if v[0] != p}


def sub_state(rng, m, atom, mod, p, present, what):
    """sample sub-transition lookups of a pair of levels"""
    i, j = (list(p) * 2)[:2]
    l0, l1 = mod.spec.levels[i], mod.spec.levels[j]
    hp, lead = hf_pairs(mod.spec.I, l0, l1)
    for F0, F1 in rng.sample(list(hp), min(2, len(hp))):
        n0, n1 = f'{l0["name"]} {fk(F0)}', f'{l1["name"]} {fk(F1)}'
        need = must(hp[F0, F1], lead) if present else False
        check_key(m, atom, n0, n1, need, mod.trans.get(p), 1, what)
        zl = 1 if 1 in hp[F0, F1] else 2
        zp = z_pairs(F0, F1, hp[F0, F1])
        a, b = rng.choice(list(zp))
        need = (must(zp[a, b], zl) if need else None if need is None and zp[a, b] else False) if present else False
        check_key(m, atom, f'{n0} {mk(a)}', f'{n1} {mk(b)}', need, mod.trans.get(p), 2, what)


def check_key(m, atom, n0, n1, need, top, depth, what):
    try:
        s = atom.transitions[n0, n1]
    except KeyError:
        s = None
    m.ok(need is None or need == (s is not None), 'sub-transition',
         lambda: f'{what}: {n0}, {n1}: {s}, expected {"present" if need else "absent"}')
    if s is not None:
        t = s
        for _ in range(depth):
            t = t.parent
        m.same(t, top, 'sub-parent', f'{what}: {n0}, {n1}')
        m.eq({s.E_1.name, s.E_2.name}, {n0, n1}, 'sub-joins', what)
        m.seen('sub-present')
    else:
        m.seen('sub-absent')


def audit(rng, m, atom, mod, what):
    spec = mod.spec
    names = [spec.levels[i]['name'] for i in mod.levels]
    L, T = atom.levels, atom.transitions
    m.ok(sorted(L.keys()) == sorted(names), 'levels',
         lambda: f'{what}: lists {sorted(L.keys())}, expected {sorted(names)}')
    m.eq(len(L), len(names), 'level-count', what)
    m.ok(sorted(map(id, L.values())) == sorted(id(mod.lv[i]) for i in mod.levels), 'level-objects', what)
    got = {id(t): t for t in T.values()}
    m.eq(len(T), len(mod.trans), 'transition-count', what)
    m.ok(sorted(got) == sorted(id(t) for t in mod.trans.values()), 'transitions',
         lambda: f'{what}: lists {[t.name for t in got.values()]}, expected {[t.name for t in mod.trans.values()]}')
    for k, t in zip(T.keys(), T.values()):
        m.eq(set(k), {t.E_1.name, t.E_2.name}, 'own-name', what)
        m.ok(all(any(x is y for y in L.values()) for x in (t.E_1, t.E_2)), 'joins-listed',
             lambda: f'{what}: {t.name} joins a level the atom does not have')
    for p, t in mod.trans.items():
        a, b = (list(p) * 2)[:2]
        m.same(T[spec.levels[a]['name'], spec.levels[b]['name']], t, 'transition-lookup', what)
        m.same(T[mod.lv[b], mod.lv[a]], t, 'transition-lookup', what)
        m.same(t.atom, atom, 'transition-atom', what)
    for i, l in enumerate(spec.levels):
        F = rng.choice(Fs(spec.I, l['J']))
        M = rng.choice(Ms(F))
        keys = [l['name'], f'{l["name"]} {fk(F)}', f'{l["name"]} {fk(F)} {mk(M)}']
        if i in mod.levels:
            m.same(L[keys[0]], mod.lv[i], 'level-lookup', what)
            for k in keys[1:]:
                m.eq(L[k].name, k, 'sublevel-lookup', what)
                m.same(L[k].manifold, mod.lv[i], 'sublevel-manifold', what)
            m.same(mod.lv[i].atom, atom, 'level-atom', what)
            m.ok(abs(L[keys[0]].level_Hz - l['E']) <= 1e-3 + 1e-15 * abs(l['E']), 'energy', what)
        else:
            for k in keys:
                m.raises(KeyError, lambda: L[k], 'level-gone', f'{what}: {k}')
            m.seen('gone')
    n = len(spec.levels)
    for _ in range(3):
        i, j = rng.randrange(n), rng.randrange(n)
        p = frozenset((i, j))
        if p not in mod.trans:
            m.raises(KeyError, lambda: T[spec.levels[i]['name'], spec.levels[j]['name']], 'transition-gone',
                     f'{what}: {i},{j}')
        if p in mod.trans or rng.random() < 0.3:
            sub_state(rng, m, atom, mod, p, p in mod.trans, what)
    for al, (i, e) in mod.lalias.items():
        m.same(L[al], e, 'level-alias', f'{what}: {al}')
    for al, (p, t) in mod.talias.items():
        m.same(T[al], t, 'transition-alias', f'{what}: {al}')
    m.state(len(mod.levels), len(mod.trans), len(mod.lalias), len(mod.talias))


def live(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, Transition
    spec = Spec(rng, nlev=(3, 6), I=[0, 1, 2, 3], Jmax=4, aliases=0.0, hf=0.5, B=0.4)
    n = len(spec.levels)
    levels = [Spec.level(rng, l) for l in spec.levels]
    atom = Atom('X', I=num(rng, spec.I), B=spec.B * tk.G)
    mod = Model(spec, levels)
    allowed = [frozenset(p) for p in itertools.combinations_with_replacement(range(n), 2)
               if any(lib.pair_kinds(spec.levels[p[0]], spec.levels[p[1]]))]
    old = {}                            # pair -> transition objects that were removed
    serial = itertools.count()
    for step in range(rng.randint(10, 18)):
        act = rng.choice(['level', 'level', 'transition', 'transition', 'transition', 'readd', 'remove-level',
                          'remove-level', 'remove-transition', 'remove-transition', 'alias', 'alias', 'look', 'replace',
                          'readd-removed', 'readd-removed'])
        what = act
        if act == 'level':
            i = rng.randrange(n)
            how = rng.choice(['add', 'append', 'setitem', 'eager', 'alias'])
            what = f'{act} {how} {i} present={i in mod.levels}'
            al = f'a{next(serial)}'
            if how == 'add':
                atom.add_level(levels[i])
            elif how == 'append':
                atom.levels.append(levels[i])
            elif how == 'eager':
                atom.add_level(levels[i], populate_sublevels=True)
            elif how == 'setitem':
                atom.levels[al] = levels[i]
            else:
                atom.add_level(levels[i], alias=al)
            mod.levels.add(i)
            if how in ('setitem', 'alias'):
                mod.lalias[al] = (i, levels[i])
            elif levels[i].alias is not None:
                mod.lalias[levels[i].alias] = (i, levels[i])
        elif act in ('transition', 'replace') and allowed:
            p = rng.choice(allowed)
            a, b = (list(p) * 2)[:2]
            if rng.random() < 0.5:
                a, b = b, a
            if p in mod.trans and act != 'replace':
                continue
            t = Transition(levels[a], levels[b], A=1e6 * tk.Hz if rng.random() < 0.5 else None)
            how = rng.choice(['add', 'append', 'setitem'])
            what = f'{act} {how} {sorted(p)} levels-present={[x in mod.levels for x in p]}'
            al = f't{next(serial)}'
            mod.talias = {k: v for k, v in mod.talias.items() if v[0] != p}
            if how == 'add':
                m.same(atom.add_transition(t), t, 'returned', what)
            elif how == 'append':
                atom.transitions.append(t)
            else:
                atom.transitions[al] = t
                mod.talias[al] = (p, t)
            for x in p:
                if x not in mod.levels and levels[x].alias is not None:
                    mod.lalias[levels[x].alias] = (x, levels[x])
            mod.levels |= p
            mod.trans[p] = t
            m.seen('brought-levels')
        elif act == 'readd' and (mod.trans or mod.levels):
            if mod.trans and rng.random() < 0.6:
                p = rng.choice(list(mod.trans))
                what = f'readd transition {sorted(p)}'
                atom.add_transition(mod.trans[p])
                if mod.trans[p].alias:
                    mod.talias[mod.trans[p].alias] = (p, mod.trans[p])
            else:
                i = rng.choice(list(mod.levels))
                what = f'readd level {i}'
                atom.add_level(levels[i])
                if levels[i].alias is not None:
                    mod.lalias[levels[i].alias] = (i, levels[i])
        elif act == 'readd-removed' and old:
            p = rng.choice(list(old))
            if p in mod.trans:
                continue
            t = old[p]
            what = f'readd removed transition {sorted(p)} levels-present={[x in mod.levels for x in p]}'
            atom.add_transition(t)
            for x in p:
                if x not in mod.levels and levels[x].alias is not None:
                    mod.lalias[levels[x].alias] = (x, levels[x])
            mod.levels |= p
            mod.trans[p] = t
            if t.alias:
                mod.talias[t.alias] = (p, t)
            m.seen('readded')
        elif act == 'remove-level' and mod.levels:
            i = rng.choice(list(mod.levels))
            keys = [levels[i].name] + [k for k, (x, e) in mod.lalias.items() if e is levels[i]]
            r = [k for k in range(len(mod.levels)) if atom.levels[k] is levels[i]]
            key = rng.choice(keys + r)
            what = f'remove level {i} by {key!r}'
            for p in mod.trans:
                if i in p:
                    old[p] = mod.trans[p]
            gone = [k for k, (x, e) in mod.lalias.items() if x == i]
            gone_t = [k for k, (p, e) in mod.talias.items() if i in p]
            del atom.levels[key]
            mod.drop_level(i)
            for k in gone:
                m.raises(KeyError, lambda: atom.levels[k], 'alias-gone', f'{what}: {k}')
            for k in gone_t:
                m.raises(KeyError, lambda: atom.transitions[k], 'alias-gone', f'{what}: {k}')
            m.seen('removed-level')
        elif act == 'remove-transition' and mod.trans:
            p = rng.choice(list(mod.trans))
            t = mod.trans[p]
            a, b = (list(p) * 2)[:2]
            keys = [(levels[a].name, levels[b].name), (levels[b].name, levels[a].name), (levels[a], levels[b])]
            keys += [k for k, (_, x) in mod.talias.items() if x is t]
            key = rng.choice(keys)
            what = f'remove transition {sorted(p)} by {key!r}'
            gone_t = [k for k, (q, e) in mod.talias.items() if q == p]
            del atom.transitions[key]
            old[p] = t
            mod.drop_trans(p)
            for k in gone_t:
                m.raises(KeyError, lambda: atom.transitions[k], 'alias-gone', f'{what}: {k}')
            m.seen('removed-transition')
        elif act == 'alias' and mod.levels:
            i = rng.choice(list(mod.levels))
            F = rng.choice(Fs(spec.I, spec.levels[i]['J']))
            e = rng.choice([levels[i], levels[i][fk(F)], levels[i][fk(F)].sublevels()[0]])
            al = f's{next(serial)}'
            e.alias = al
            mod.lalias[al] = (i, e)
            if mod.trans and rng.random() < 0.6:
                p = rng.choice(list(mod.trans))
                t = mod.trans[p]
                subs = list(t.values())
                x = rng.choice([t] + subs[:2])
                al = f'u{next(serial)}'
                x.alias = al
                mod.talias[al] = (p, x)
        elif act == 'look' and mod.trans:
            t = rng.choice(list(mod.trans.values()))
            for s in list(t.values())[:3]:
                list(s.values())
        m.op(what)
        audit(rng, m, atom, mod, f'step {step}: {what}')


SCENARIOS = {'live': (350, 4000, live),
             'history': (240, 4000, history(['coherent'], ('level', 'new', 'remove-t', 'remove-l', 'replace-t'), extra=('new', 'remove-t', 'remove-l', 'readd-t')))}
REQUIRED = {'removed-level': 200, 'removed-transition': 150, 'readded': 80, 'gone': 2000, 'sub-present': 500,
            'sub-absent': 1500, 'check:alias-gone': 100,
            'op-replace-l': 50, 'renewed-joined': 40, 'op-foreign': 60, 'dead-name': 1000, 'op-saveload': 60, 'op-readd-t': 50, 'op-remove-l': 80}
