import lib
import oracle as o
from engine import Skip
from lib import Fs, Ms, Spec, dbl, hf_pairs, z_pairs
from machine import history

ID = 'C13'
RULE = ('Each case builds transitions between random levels, sets and changes their A coefficients before and after '
        'their sub-transitions were first read, and compares every relative strength and A with exact 6j/3j squares, '
        'and their sums with the sum rules.')
ASSUMPTIONS = ['Only transitions with a known A coefficient have relative strengths.',
               'Lines within one level are listed once per unordered pair, so their multiplet sums are not compared.']


def census(rng, m, t, l0, l1, I, A, zfrac):
    name = f'I={I}/2 {t.E_1.name} - {t.E_2.name}'
    if A is None:
        m.ok(t.A is None, 'A-none', name)
        for s in t.values():
            m.ok(s.A is None, 'A-none', s.name)
        return
    m.close(t.A.to('Hz').magnitude, A, 'A', name, rel=1e-12)
    m.close(float(t.rel_strength), 1.0, 'own-strength', name, rel=1e-12)
    hp, lead = hf_pairs(I, l0, l1)
    same = t.E_1 is t.E_2
    per0, per1, total = {}, {}, 0.0
    for s in t.values():
        a, b = s.E_1, s.E_2
        if a.parent is not t.E_1:
            a, b = b, a
        F0, F1 = dbl(a.term.F), dbl(b.term.F)
        w = o.hf_strength(lead, I, l0['J'], F0, l1['J'], F1)
        m.ok(abs(float(s.rel_strength) - w) < 1e-10 * max(1, w), 'hf-strength',
             lambda: f'{name} F={F0}/2,{F1}/2: {s.rel_strength} vs {w}')
        m.close(s.A.to('Hz').magnitude, A * w, 'hf-A', s.name, rel=1e-9, abs_=1e-9 * abs(A))
        per0[F0] = per0.get(F0, 0) + float(s.rel_strength)
        per1[F1] = per1.get(F1, 0) + float(s.rel_strength)
        total += float(s.rel_strength)
        m.state(I, l0['J'], l1['J'], lead, F0, F1)
        if rng.random() < zfrac:
            zsum, zA = 0.0, 0.0
            zl = 1 if 1 in hp[F0, F1] else 2
            for z in s.values():
                x, y = z.E_1, z.E_2
                if x.parent is not a or (a is b and x.parent is not z.E_1.parent):
                    x, y = y, x
                v = o.z_strength(zl, F0, dbl(x.term.mF), F1, dbl(y.term.mF))
                m.ok(abs(float(z.rel_strength) - v) < 1e-11, 'z-strength', lambda: f'{z.name}: {z.rel_strength} vs {v}')
                m.close(z.A.to('Hz').magnitude, A * w * v, 'z-A', z.name, rel=1e-9, abs_=1e-9 * abs(A))
                zsum += float(z.rel_strength)
                zA += z.A.to('Hz').magnitude
            if a is not b:
                m.ok(abs(zsum - 1) < 1e-9, 'z-sum', lambda: f'{s.name}: {zsum}')
                m.close(zA, A * w, 'z-A-sum', s.name, rel=1e-9, abs_=1e-9 * abs(A))
    if not same:
        for (J, per, Fl) in ((l0['J'], per0, Fs(I, l0['J'])), (l1['J'], per1, Fs(I, l1['J']))):
            for F in Fl:
                m.ok(abs(per.get(F, 0.0) - (F + 1) / (J + 1)) < 1e-9, 'F-sum',
                     lambda: f'{name} F={F}/2 of J={J}/2: {per.get(F)}')
        m.ok(abs(total - (I + 1)) < 1e-9 * (I + 1), 'total', lambda: f'{name}: {total}')
        m.seen('multiplets')


def live(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    spec = Spec(rng, nlev=(2, 3), I=list(range(0, 8)), Jmax=8, aliases=0.0, energies=rng.choice(['spread', 'close']))
    atom, levels = spec.build(rng, m)
    n = len(levels)
    pairs = [(i, j) for i in range(n) for j in range(n) if i < j or (i == j and rng.random() < 0.25)]
    rng.shuffle(pairs)
    ts = []
    for i, j in pairs:
        if rng.random() < 0.5:
            i, j = j, i
        l0, l1 = spec.levels[i], spec.levels[j]
        if not any(lib.pair_kinds(l0, l1)) or (spec.I + 1) ** 2 * (l0['J'] + 1) * (l1['J'] + 1) > 1800:
            continue
        A = None if rng.random() < 0.3 else lib.logu(rng, 1e-2, 1e9)
        q = None if A is None else quantity(rng, A)
        m.op('transition', i, j, A)
        how = rng.randrange(3)
        if how == 0:
            t = atom.add_transition(Transition(levels[i], levels[j], A=q))
        elif how == 1:
            t = atom.add_transition((levels[i], levels[j]), A=q)
        else:
            t = atom.add_transition(Transition(levels[i], levels[j]))
            if A is not None:
                if rng.random() < 0.5:
                    list(t.values())
                t.A = q
        ts.append([t, l0, l1, A])
    if not ts:
        raise Skip
    for step in range(rng.randint(3, 7)):
        rec = rng.choice(ts)
        t, l0, l1, A = rec
        act = rng.choice(['read', 'read-deep', 'set', 'set', 'edit', 'readd'])
        if act == 'read':
            list(t.values())
        elif act == 'read-deep':
            for s in t.values():
                list(s.values())
            m.seen('changed-after-reading')
        elif act == 'set':
            rec[3] = None if rng.random() < 0.1 else lib.logu(rng, 1e-2, 1e9)
            t.A = None if rec[3] is None else quantity(rng, rec[3])
            m.op('set-A', t.name, rec[3])
        elif act == 'edit':
            t.E_1.level = rng.uniform(0, 1e15) * tk.Hz
            atom.B = rng.uniform(-1e3, 1e3) * tk.G
            t.E_2.hfA = rng.uniform(-1e9, 1e9) * tk.Hz
        elif act == 'readd':
            atom.add_transition(t)
        census(rng, m, *rec[:3], spec.I, rec[3], 0.5 if rng.random() < 0.3 else 0.0)
    for rec in ts:
        census(rng, m, *rec[:3], spec.I, rec[3], 1.0)


def quantity(rng, hz):
    import atomtoolkit as tk
    u, f = rng.choice([('Hz', 1), ('kHz', 1e3), ('MHz', 1e6), ('1/s', 1)])
    return tk.Q_(hz / f, u)


SCENARIOS = {'live': (300, 3000, live),
             'history': (160, 2500, history(['strength'], extra=('A',) * 4 + ('new',) * 2))}
REQUIRED = {'multiplets': 300, 'check:z-sum': 400, 'check:hf-strength': 2000, 'set-A': 100, 'changed-after-reading': 60,
            'check:A-none': 50,
            'history-strength': 5000, 'op-A': 200}
