import lib
from c07 import quantity
from engine import Skip
from lib import Fs, Ms, Spec, fk, mk
from machine import history

ID = 'C10'
RULE = ('Each case builds an atom, assigns aliases along every route and interleaves energy edits, alias changes and '
        'lookups by every kind of key, compared with a shadow directory that records which object each key names.')
ASSUMPTIONS = ['Ranks of levels with equal energies may come in any order.',
               'Keys are well-formed: names, sublevel names, aliases and ranks; unknown keys name levels, F or mF that '
               'do not exist. A rank beyond the end may raise any LookupError.']


def ranks(rng, m, atom, spec, levels):
    n = len(levels)
    want = sorted(l['E'] for l in spec.levels)
    byid = {id(e): l for e, l in zip(levels, spec.levels)}

    def en(e):
        m.ok(id(e) in byid, 'rank-object', repr)
        return byid[id(e)]['E']
    got = [atom.levels[i] for i in range(n)]
    m.ok([en(e) for e in got] == want, 'rank-order', lambda: f'{[en(e) for e in got]} vs {want}')
    m.ok(len({id(e) for e in got}) == n, 'rank-each-once', '')
    k = rng.randrange(-n, n)
    m.same(atom.levels[k], got[k], 'rank-index', str(k))
    a, b, c = (rng.choice([None, rng.randint(-n - 1, n + 1)]) for _ in range(3))
    c = c or None
    sl = list(atom.levels[slice(a, b, c)])
    m.ok(len(sl) == len(got[a:b:c]) and all(x is y for x, y in zip(sl, got[a:b:c])), 'rank-slice', f'{a}:{b}:{c}')
    m.raises(LookupError, lambda: atom.levels[n + rng.randrange(3)], 'rank-beyond')
    m.seen('ranks')
    m.state('rank', tuple(byid[id(e)]['idx'] for e in got))


def listing(m, atom, spec, levels):
    names = [l['name'] for l in spec.levels]
    L = atom.levels
    keys = list(L.keys())
    m.ok(sorted(keys) == sorted(names), 'keys', lambda: f'{keys} vs {names}')
    m.eq(list(L), keys, 'iter', '')
    m.eq(L.list_names(), keys, 'list_names', '')
    m.eq(len(L), len(names), 'len', '')
    for vals in (list(L.values()), list(L.levels()), [L[k] for k in keys]):
        m.eq([v.name for v in vals], keys, 'values', '')
        m.eq(sorted(map(id, vals)), sorted(map(id, levels)), 'values-objects', '')


def live(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, EnergyLevel
    spec = Spec(rng, nlev=(2, 7), I=[0, 0, 0, 1, 2, 3, 5], Jmax=9, same_statistics=False, aliases=0.0,
                energies=rng.choice(['spread', 'close']))
    from lib import num
    atom = Atom('X', I=num(rng, spec.I), B=spec.B * tk.G)
    levels, alias = [], {}
    for i, l in enumerate(spec.levels):
        e = Spec.level(rng, l)
        how = rng.choice(['add', 'add-alias', 'setitem', 'ctor-alias', 'append', 'pre-alias'])
        al = rng.choice([f'lab{i}', f'the level {i}', f'α{i}', f'S{i}/2'])
        m.op('add', how, l['name'], l['E'], al)
        if how == 'add':
            m.same(atom.add_level(e), e, 'add-returns', l['name'])
        elif how == 'add-alias':
            atom.add_level(e, alias=al, populate_sublevels=rng.random() < 0.3)
        elif how == 'setitem':
            atom.levels[al] = e
        elif how == 'ctor-alias':
            e = EnergyLevel(e.term, e.level, lande=e.lande, hfA=e.hfA, hfB=e.hfB, hfC=e.hfC, alias=al)
            atom.add_level(e)
        elif how == 'append':
            atom.levels.append(e)
        else:
            e.alias = al
            atom.add_level(e)
        if how not in ('add', 'append'):
            alias[al] = e
            m.same(atom.levels[al], e, 'alias', al)
            m.eq(e.alias, al, 'alias-read', '')
        levels.append(e)
    for step in range(rng.randint(8, 16)):
        i = rng.randrange(len(levels))
        e, l = levels[i], spec.levels[i]
        F = rng.choice(Fs(spec.I, l['J']))
        M = rng.choice(Ms(F))
        hn, zn = f'{l["name"]} {fk(F)}', f'{l["name"]} {fk(F)} {mk(M)}'
        act = rng.choice(['name', 'name', 'sub', 'sub', 'alias', 'alias', 'energy', 'unknown', 'ranks', 'listing', 'mJ'])
        if act == 'name':
            m.same(atom.levels[l['name']], e, 'name', l['name'])
        elif act == 'sub':
            ways = [lambda: atom.levels[zn], lambda: atom.levels[hn][mk(M)], lambda: e[fk(F)][mk(M)],
                    lambda: atom.levels[l['name']][fk(F)][mk(M)]]
            rng.shuffle(ways)
            objs = [w() for w in ways]
            m.ok(all(x is objs[0] for x in objs), 'sub-same', zn)
            m.eq(objs[0].name, zn, 'sub-name', '')
            m.same(atom.levels[hn], e[fk(F)], 'hf-same', hn)
            m.same(objs[0].parent, atom.levels[hn], 'sub-parent', zn)
            m.seen('sub-lookups')
        elif act == 'mJ' and spec.I:
            # mJ names the states of atoms without nuclear spin only
            Ml = rng.choice(Ms(l['J']))
            jk = mk(Ml).replace('mF', 'mJ')
            m.raises(KeyError, lambda: e[jk], 'unknown-sub', f'{l["name"]}[{jk!r}]')
            m.seen('mJ-spin')
        elif act == 'mJ' and spec.I == 0:
            zj = f'{l["name"]} {mk(M).replace("mF", "mJ")}'
            m.same(atom.levels[zj], e[fk(F)][mk(M)], 'mJ', zj)
            m.same(e[mk(M).replace('mF', 'mJ')], e[fk(F)][mk(M)], 'mJ-step', zj)
            m.seen('mJ')
        elif act == 'alias':
            target = rng.choice([e, e[fk(F)], e[fk(F)][mk(M)]])
            # a new alias, or one that already names something: the last assignment wins
            al = rng.choice(list(alias) or ['q']) if rng.random() < 0.25 else f'{rng.choice(["g", "up", "m"])}{rng.randrange(50)}'
            target.alias = al
            m.op('alias', al, target.name)
            alias[al] = target
            m.eq(target.alias, al, 'alias-read', al)
        elif act == 'energy':
            l['E'] = rng.choice([rng.uniform(-1e12, 1e15), spec.levels[0]['E'], 0.0])
            e.level = l['E'] * tk.Hz
            l['E'] = e.level.to('Hz').magnitude
            m.op('energy', l['name'], l['E'])
            ranks(rng, m, atom, spec, levels)
        elif act == 'ranks':
            ranks(rng, m, atom, spec, levels)
        elif act == 'listing':
            listing(m, atom, spec, levels)
        elif act == 'unknown':
            for bad in rng.sample([l['name'] + 'x', l['conf'], l['term'], 'no such level', '', l['name'] + ' F=77',
                                   f'{l["name"]} {fk(F)} mF=77', f'{l["name"]} {fk(F + 40)} {mk(M)}',
                                   f'9z {l["term"]}{lib.frac(l["J"])} {fk(F)}', l['name'][:-1] + '77', 'lab99',
                                   l['term'] + lib.frac(l['J']), f'{l["term"]}{lib.frac(l["J"])} {fk(F)}', l['name'][1:],
                                   l['name'][:-1], l['name'][:-1] + ' ' + fk(F), l['name'].swapcase(), 
                                   fk(F), mk(M), f'{fk(F)} {mk(M)}', f'{l["name"]} {mk(M)}',
                                   f'{l["name"]} {mk(M)} {fk(F)}', f'{l["conf"]} {fk(F)}'], 8):
                if bad in alias or any(bad == x['name'] for x in spec.levels):
                    continue
                m.raises(KeyError, lambda: atom.levels[bad], 'unknown', bad)
            m.raises(KeyError, lambda: e['F=77'], 'unknown', 'F=77')
            m.raises(KeyError, lambda: e[fk(F)]['mF=77'], 'unknown', 'mF=77')
            m.seen('unknown')
        for al, target in alias.items():
            m.same(atom.levels[al], target, 'alias', al)
            m.seen('alias-lookups')
    listing(m, atom, spec, levels)
    ranks(rng, m, atom, spec, levels)


SCENARIOS = {'live': (400, 5000, live),
             'history': (240, 4000, history(['directory'], extra=('alias',) * 4 + ('move',) * 2))}
REQUIRED = {'ranks': 400, 'sub-lookups': 300, 'alias-lookups': 2000, 'mJ': 50, 'unknown': 200, 'check:rank-slice': 400,
            'op-alias': 400, 'op-remove-l': 40, 'op-saveload': 40, 'alias-reused': 200}
