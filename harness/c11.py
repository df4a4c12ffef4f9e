import itertools

import lib
import oracle as o
from lib import Fs, Ms, Spec, fk, hf_pairs, mk, must, z_pairs
from machine import history, ranks

ID = 'C11'
RULE = ('Each case builds an atom whose levels and transitions are created in random orders and orientations, then '
        'looks transitions and sub-transitions up by every equivalent spelling of both levels, interleaved with energy '
        'edits and failing lookups, against a directory of what was created.')
ASSUMPTIONS = ['Pairs coupled only by a weaker multipole that is also allowed may or may not exist.',
               'One transition per pair of levels (re-adding replaces, see C16).']


def spellings(rng, atom, e, sub=None):
    """ways of naming a level (or the sublevel found by the keys in sub)"""
    obj = e
    for k in sub or ():
        obj = obj[k]
    out = [obj.name, obj]
    if getattr(obj, 'alias', None):
        out.append(obj.alias)
    if not sub:
        out += ranks([(x, x.level.to('Hz').magnitude) for x in atom.levels.values()], e)
    elif len(sub) == 2 and atom.I == 0:
        out.append(f'{e.name} {sub[1].replace("mF", "mJ")}')
    return out


def joins(m, t, a, b, what):
    m.ok({id(t.E_1), id(t.E_2)} == {id(a), id(b)}, 'joins',
         lambda: f'{what}: joins {t.E_1.name} and {t.E_2.name}, asked for {a.name} and {b.name}')


def fetch(rng, m, atom, x, y, n=3):
    """x, y: (level, subkeys); returns the transition all spellings agree on, or None"""
    first = None
    xs, ys = spellings(rng, atom, *x), spellings(rng, atom, *y)
    combos = [(a, b) for a in xs for b in ys] + [(b, a) for a in xs for b in ys]
    got = []
    for key in rng.sample(combos, min(n, len(combos))):
        try:
            got.append((key, atom.transitions[key]))
        except KeyError:
            got.append((key, None))
    for key, t in got:
        m.ok(t is got[0][1], 'same', lambda: f'{key} gives {t}, {got[0][0]} gives {got[0][1]}')
    m.seen('lookups', len(got))
    return got[0][1]


def sub_obj(e, sub):
    for k in sub:
        e = e[k]
    return e


def check_table(rng, m, t, parent_pairs, name):
    """the parent's table of sub-transitions"""
    lo, up = t.E_lower, t.E_upper
    for key, s in t.items():
        m.same(t[key], s, 'table', f'{name} {key}')
        rev = (key[1], key[0])
        if rev not in t.keys() or rev == key:
            m.same(t[rev], s, 'table-reversed', f'{name} {rev}')
        subs = {id(s.E_1): s.E_1, id(s.E_2): s.E_2}
        if lo is up:
            want = [{x.term.short_name for x in subs.values()}]
            m.ok(set(key) in want, 'table-key', lambda: f'{name}: {key} for {s.name}')
        else:
            a = [x for x in (s.E_1, s.E_2) if x.parent is lo]
            b = [x for x in (s.E_1, s.E_2) if x.parent is up]
            m.ok(len(a) == 1 and len(b) == 1, 'table-joins', name)
            m.eq(tuple(key), (a[0].term.short_name, b[0].term.short_name), 'table-key', name)
        m.same(s.parent, t, 'sub-parent', name)
        m.seen('table-entries')
    m.eq(len(t), len(list(t.keys())), 'table-len', name)
    m.eq(sorted(map(id, t.values())), sorted(map(id, t.subtransitions())), 'table-values', name)
    m.eq(list(t), list(t.keys()), 'table-iter', name)
    m.raises(KeyError, lambda: t['F=77', 'F=76'], 'table-unknown', name)


def live(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, Transition
    spec = Spec(rng, nlev=(3, 5), I=[0, 0, 1, 2, 3], Jmax=5, aliases=0.5, hf=0.6, B=0.6,
                energies=rng.choice(['spread', 'spread', 'close']))
    order = list(range(len(spec.levels)))
    rng.shuffle(order)
    from lib import num
    atom = Atom('X', I=num(rng, spec.I), B=spec.B * tk.G)
    levels = [Spec.level(rng, l) for l in spec.levels]
    pending = set(order)

    def add(i):
        if i in pending:
            pending.discard(i)
            atom.add_level(levels[i], alias=spec.levels[i]['alias'])
            m.op('level', spec.levels[i]['name'], spec.levels[i]['E'])
    pairs = [p for p in itertools.combinations(range(len(levels)), 2) if rng.random() < 0.7]
    internal = [(i, i) for i in range(len(levels)) if rng.random() < 0.3]
    made = {}
    todo = pairs + internal
    rng.shuffle(todo)
    aliases = {}
    for i in order:
        if rng.random() < 0.5:
            add(i)
    for n, (i, j) in enumerate(todo):
        if rng.random() < 0.5:
            i, j = j, i
        kd = lib.pair_kinds(spec.levels[i], spec.levels[j])
        if not any(kd):
            continue
        how = rng.choice(['obj', 'obj', 'append', 'setitem', 'names', 'levels', 'alias-kw', 'direct'])
        if how in ('names', 'direct') or rng.random() < 0.3:
            add(i)
            add(j)
        m.op('transition', how, i, j)
        if how == 'obj':
            t = atom.add_transition(Transition(levels[i], levels[j]))
        elif how == 'append':
            t = Transition(levels[i], levels[j])
            atom.transitions.append(t)
        elif how == 'setitem':
            t = Transition(levels[i], levels[j])
            atom.transitions[f'line {n}'] = t
            aliases[f'line {n}'] = t
        elif how == 'names':
            t = atom.add_transition((levels[i].name, levels[j].name))
        elif how == 'levels':
            t = atom.add_transition((levels[i], levels[j]), A=1e6 * tk.Hz)
        elif how == 'alias-kw':
            t = atom.add_transition(Transition(levels[i], levels[j], alias=f'kw {n}'))
            aliases[f'kw {n}'] = t
        else:
            t = Transition(levels[i], levels[j])        # both levels are in the atom: it is listed at once
        pending -= {i, j}
        joins(m, t, levels[i], levels[j], how)
        made[frozenset((i, j))] = (t, i, j)
        m.ok(t.E_upper.level_Hz >= t.E_lower.level_Hz, 'orientation', t.name)
        if rng.random() < 0.2:
            list(t.values())
    for i in order:
        add(i)
    for i, l in enumerate(spec.levels):
        # levels that came in with a transition carry no alias yet
        if l['alias'] and rng.random() < 0.7:
            levels[i].alias = l['alias']
        if rng.random() < 0.3:
            F = rng.choice(Fs(spec.I, l['J']))
            levels[i][fk(F)].alias = f'sub{i}'
    for step in range(rng.randint(8, 14)):
        act = rng.choice(['top', 'hf', 'hf', 'z', 'z', 'alias', 'energy', 'table', 'absent', 'field', 'mixed'])
        i, j = rng.randrange(len(levels)), rng.randrange(len(levels))
        before = sorted(map(id, atom.transitions.values()))
        n_before = (len(atom.transitions), len(atom.levels))
        l0, l1 = spec.levels[i], spec.levels[j]
        top = made.get(frozenset((i, j)))
        if act == 'top':
            for fs, (t, a, b) in made.items():
                m.same(fetch(rng, m, atom, (levels[a], None), (levels[b], None), 4), t, 'top', t.name)
        elif act == 'absent' and not top:
            m.ok(fetch(rng, m, atom, (levels[i], None), (levels[j], None), 4) is None, 'absent', f'{i},{j}')
            F0, F1 = rng.choice(Fs(spec.I, l0['J'])), rng.choice(Fs(spec.I, l1['J']))
            m.ok(fetch(rng, m, atom, (levels[i], (fk(F0),)), (levels[j], (fk(F1),))) is None, 'absent-hf', f'{i},{j}')
            m.raises(KeyError, lambda: atom.transitions['no such line'], 'absent-alias')
            m.raises(KeyError, lambda: atom.transitions[levels[i].name, 'no such level'], 'absent-level')
            m.seen('absent')
        elif act in ('hf', 'z') and top:
            t = top[0]
            hp, lead = hf_pairs(spec.I, l0, l1)
            for F0, F1 in rng.sample(list(hp), min(4, len(hp))):
                rs = hp[F0, F1]
                a, b = (levels[i], (fk(F0),)), (levels[j], (fk(F1),))
                s = fetch(rng, m, atom, a, b)
                need = must(rs, lead)
                what = f'{levels[i].name} {fk(F0)} - {levels[j].name} {fk(F1)}'
                m.ok(need is None or need == (s is not None), 'hf-exists', lambda: f'{what}: {s}, ranks {rs}')
                if s is None:
                    continue
                joins(m, s, sub_obj(*a), sub_obj(*b), what)
                m.same(s.parent, t, 'hf-parent', what)
                k = [fk(F0), fk(F1)]
                if t.E_lower is not levels[i]:
                    k.reverse()
                if i != j:
                    m.same(t[tuple(k)], s, 'hf-table', f'{what} {k}')
                m.seen('hf-found')
                if act == 'z':
                    zp = z_pairs(F0, F1, rs)
                    zl = 1 if 1 in rs else 2
                    for m0, m1 in rng.sample(list(zp), min(4, len(zp))):
                        az, bz = (levels[i], (fk(F0), mk(m0))), (levels[j], (fk(F1), mk(m1)))
                        z = fetch(rng, m, atom, az, bz)
                        need = must(zp[m0, m1], zl)
                        wz = f'{what} {mk(m0)},{mk(m1)}'
                        m.ok(need is None or need == (z is not None), 'z-exists', lambda: f'{wz}: {z}')
                        if z is not None:
                            joins(m, z, sub_obj(*az), sub_obj(*bz), wz)
                            m.same(z.parent, s, 'z-parent', wz)
                            m.seen('z-found')
        elif act == 'mixed' and top:
            F0, F1 = rng.choice(Fs(spec.I, l0['J'])), rng.choice(Fs(spec.I, l1['J']))
            m0 = rng.choice(Ms(F0))
            # sublevels of different depth are never joined, whichever comes first
            deep = [(levels[i],), (levels[i], fk(F0)), (levels[i], fk(F0), mk(m0))]
            other = [(levels[j],), (levels[j], fk(F1)), (levels[j], fk(F1), mk(rng.choice(Ms(F1))))]
            for x, y in itertools.product(range(3), range(3)):
                if x != y:
                    a, b = sub_obj(deep[x][0], deep[x][1:]), sub_obj(other[y][0], other[y][1:])
                    if rng.random() < .5:
                        a, b = b, a
                    k = (a, b) if rng.random() < .5 else (a.name, b.name)
                    m.raises(KeyError, lambda: atom.transitions[k], 'mixed', f'{a.name}, {b.name}')
            m.seen('mixed')
        elif act == 'alias' and top:
            t = top[0]
            subs = list(t.values())
            target = rng.choice([t] + subs[:3])
            al = rng.choice(list(aliases) or ['z0']) if rng.random() < 0.2 else f'al{step}'
            target.alias = al
            aliases[al] = target
            m.eq(target.alias, al, 'alias-read', al)
            m.op('alias', al, target.name)
        elif act == 'energy':
            l0['E'] = rng.choice([rng.uniform(0, 1e15), l0['E'] + 1e6])
            levels[i].level = l0['E'] * tk.Hz
            m.op('energy', l0['name'], l0['E'])
        elif act == 'field':
            atom.B = rng.uniform(-100, 100) * tk.G
        elif act == 'table' and top:
            t = top[0]
            check_table(rng, m, t, None, t.name)
            subs = list(t.values())
            if subs:
                s = rng.choice(subs)
                check_table(rng, m, s, None, s.name)
        for al, t in aliases.items():
            m.same(atom.transitions[al], t, 'alias', al)
        m.ok(sorted(map(id, atom.transitions.values())) == before and
             (len(atom.transitions), len(atom.levels)) == n_before, 'unchanged', act)
    m.eq(sorted(map(id, atom.transitions.values())), sorted(id(t) for t, *_ in made.values()), 'listed', '')
    keys = list(atom.transitions.keys())
    m.eq(len(keys), len(atom.transitions), 'len', '')
    m.ok([atom.transitions[k] for k in keys] == list(atom.transitions.values()), 'values', '')
    m.ok(list(atom.transitions) == keys, 'iter', '')
    m.eq(atom.transitions.list_names(), [k for k in keys if k[0] != k[1]], 'list_names', '')
    m.eq(atom.transitions.list_names(hide_self_transitions=False), keys, 'list_names', '')
    m.state(spec.I, len(levels), len(made))


def exhaust(rng, m):
    """one transition, every sub-transition by every order"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    spec = Spec(rng, nlev=(2, 3), I=[0, 1, 2, 3], Jmax=4, aliases=0.3, par=[1, -1] if rng.random() < 0.7 else [1],
                energies=rng.choice(['spread', 'close']))
    atom, levels = spec.build(rng, m)
    i, j = rng.sample(range(len(levels)), 2)
    if rng.random() < 0.2:
        j = i
    l0, l1 = spec.levels[i], spec.levels[j]
    hp, lead = hf_pairs(spec.I, l0, l1)
    if not lead:
        from engine import Skip
        raise Skip
    t = atom.add_transition(Transition(levels[i], levels[j]))
    m.op('exhaust', spec.I, l0['name'], l1['name'])
    # as created, the lower of its levels is the one lower in energy
    for s in [t] + t.subtransitions():
        m.ok(s.E_upper.level_Hz >= s.E_lower.level_Hz, 'orientation', lambda: f'{s.name}: {s.E_upper} below {s.E_lower}')
        if s is not t and rng.random() < .5:
            for z in s.subtransitions():
                m.ok(z.E_upper.level_Hz >= z.E_lower.level_Hz, 'orientation', lambda: f'{z.name}: {z.E_upper} below {z.E_lower}')
    items = list(hp.items())
    rng.shuffle(items)
    for (F0, F1), rs in items:
        a, b = (levels[i], (fk(F0),)), (levels[j], (fk(F1),))
        s = fetch(rng, m, atom, a, b, 2)
        need = must(rs, lead)
        what = f'I={spec.I}/2 {levels[i].name} {fk(F0)} - {levels[j].name} {fk(F1)}'
        m.ok(need is None or need == (s is not None), 'hf-exists', lambda: f'{what}: {s}, ranks {rs}')
        if s is None:
            continue
        joins(m, s, sub_obj(*a), sub_obj(*b), what)
        zl = 1 if 1 in rs else 2
        zi = list(z_pairs(F0, F1, rs).items())
        rng.shuffle(zi)
        for (m0, m1), zr in zi[:40]:
            az, bz = (levels[i], (fk(F0), mk(m0))), (levels[j], (fk(F1), mk(m1)))
            z = fetch(rng, m, atom, az, bz, 2)
            need = must(zr, zl)
            m.ok(need is None or need == (z is not None), 'z-exists', lambda: f'{what} {mk(m0)},{mk(m1)}: {z}')
            if z is not None:
                joins(m, z, sub_obj(*az), sub_obj(*bz), what)
    check_table(rng, m, t, None, t.name)
    for s in list(t.values()):
        check_table(rng, m, s, None, s.name)
    m.seen('exhausted')
    m.state(spec.I, l0['J'], l1['J'], l0 is l1)


SCENARIOS = {'live': (300, 3000, live), 'exhaust': (120, 1200, exhaust),
             'history': (240, 4000, history(['pairs', 'subpairs'], extra=('new',) * 2 + ('talias',) * 2 + ('replace-t',) * 2))}
REQUIRED = {'lookups': 5000, 'absent': 60, 'hf-found': 200, 'z-found': 300, 'check:mixed': 50, 'check:alias': 500,
            'table-entries': 1500, 'exhausted': 60,
            'history-sub': 3000, 'op-replace-t': 120, 'op-remove-t': 50, 'check:talias': 500}
