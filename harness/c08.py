import lib
import oracle as o
from c07 import quantity
from lib import Fs, Ms, Spec, fk, mk, signed
from machine import history

ID = 'C08'
RULE = ('Each case builds an atom in a random field and interleaves changes of field (in several units), Lande factors '
        'and quadratic coefficients with reads of Zeeman energies, compared with a shadow model.')
ASSUMPTIONS = ['mu_B/h = 1.39962449361e6 Hz/G; energies compared to 1e-3 Hz plus 1e-9 of the Zeeman shift (the CODATA '
               'value in the unit registry may differ in the last digits).',
               'g-factors are those of the nuclear-moment-free formula the library states (no g_I term).']


def setfield(rng, m, atom, spec):
    import atomtoolkit as tk
    spec.B = rng.choice([0.0, signed(rng, 1e-4, 1e5), signed(rng, 1, 1e3)])
    u = rng.choice(['G', 'gauss', 'mG', 'kG', 'uG'])
    q = tk.Q_(spec.B / {'G': 1, 'gauss': 1, 'mG': 1e-3, 'kG': 1e3, 'uG': 1e-6}[u], u)
    m.op('set-field', spec.B, u)
    atom.B = q
    m.close(atom.B.to('G').magnitude, spec.B, 'field', u, rel=1e-13)


def check_z(m, spec, e, l, F, M, quad, g=None):
    h = e[fk(F)]
    z = h[mk(M)]
    lin = 0.0
    if g is None:
        g = o.g_F(l['lande'], spec.I, l['J'], F)
    else:                               # set on the Zeeman sublevel itself
        lin = (g - o.g_F(l['lande'], spec.I, l['J'], F)) * M / 2 * o.MU_B_HZ_PER_G * spec.B
    m.close(h.gF, o.g_F(l['lande'], spec.I, l['J'], F), 'gF', h.name, rel=1e-11, abs_=1e-12)
    m.close(z.gF, g, 'gF', z.name, rel=1e-11, abs_=1e-12)
    want = spec.z_shift(l, F, M, quad) + lin
    got = z.shift.to('Hz').magnitude
    tol = 1e-4 + 3e-9 * abs(g * M / 2 * o.MU_B_HZ_PER_G * spec.B) + 1e-12 * abs(quad * spec.B ** 2)
    m.ok(abs(got - want) <= tol, 'shift',
         lambda: f'{z.name} I={spec.I}/2 g_J={l["lande"]} B={spec.B} G quad={quad}: {got} vs {want}')
    full = l['E'] + spec.hf_shift(l, F) + want
    m.ok(abs(z.level.to('Hz').magnitude - full) <= tol + spec.tol(l, 0.0), 'level',
         lambda: f'{z.name}: {z.level} vs {full}')
    if F == 0:
        m.seen('F0')
    if spec.B == 0:
        m.ok(got == 0, 'no-field', lambda: f'{z.name}: {got}')
    m.seen('field-on' if spec.B else 'field-off')
    m.state(spec.I, l['J'], F, M)


def live(rng, m):
    import atomtoolkit as tk
    big = rng.random() < 0.08
    spec = Spec(rng, nlev=(1, 1) if big else (1, 4), I=list(range(8, 19)) if big else list(range(0, 9)),
                Jmax=21 if big else 9, same_statistics=False, hf=0.5, B=0.7,
                energies=rng.choice(['spread', 'close']))
    atom, levels = spec.build(rng, m)
    quads, gs = {}, {}
    for step in range(rng.randint(8, 18)):
        i = rng.randrange(len(levels))
        e, l = levels[i], spec.levels[i]
        F = rng.choice(Fs(spec.I, l['J']))
        M = rng.choice(Ms(F))
        act = rng.choice(['read', 'read', 'field', 'field', 'lande', 'quad', 'level', 'hf', 'gF'])
        if act == 'field':
            setfield(rng, m, atom, spec)
        elif act == 'lande':
            l['lande'] = rng.choice([0.0, signed(rng, 0.01, 5)])
            e.lande = l['lande']
            m.op('set-lande', l['name'], l['lande'])
        elif act == 'quad':
            quads[i, F, M] = rng.choice([0.0, signed(rng, 1e-3, 1e3)])
            e[fk(F)][mk(M)].quadratic_zeeman = quads[i, F, M]
            m.op('set-quad', l['name'], F, M, quads[i, F, M])
        elif act == 'gF':
            # a g-factor of one's own for a Zeeman sublevel: it stays
            gs[i, F, M] = rng.choice([0.0, signed(rng, 1e-2, 5)])
            e[fk(F)][mk(M)].gF = gs[i, F, M]
            m.op('set-gF', l['name'], F, M, gs[i, F, M])
            m.seen('own-gF')
        elif act == 'level':
            l['E'] = rng.uniform(0, 1e15)
            e.level = quantity(rng, l['E'])
        elif act == 'hf':
            l['A'] = signed(rng, 1e5, 1e9)
            e.hfA = quantity(rng, l['A'])
        check_z(m, spec, e, l, F, M, quads.get((i, F, M), 0.0), gs.get((i, F, M)))
        j = rng.randrange(len(levels))
        m.close(levels[j].level.to('Hz').magnitude, spec.levels[j]['E'], 'level-unmoved', '', rel=1e-14, abs_=1e-3)
        if rng.random() < 0.3:
            fz = Fs(spec.I, spec.levels[j]['J'])
            Fh = rng.choice(fz)
            hh = levels[j][fk(Fh)]
            m.ok(abs(hh.level.to('Hz').magnitude - spec.levels[j]['E'] - spec.hf_shift(spec.levels[j], Fh))
                 <= spec.tol(spec.levels[j], 0.0), 'hf-unmoved', hh.name)
    for i, (e, l) in enumerate(zip(levels, spec.levels)):
        for F in Fs(spec.I, l['J']):
            for M in Ms(F):
                check_z(m, spec, e, l, F, M, quads.get((i, F, M), 0.0), gs.get((i, F, M)))
            if any((i, F, M) in gs for M in Ms(F)):
                continue
            # the linear parts of one hyperfine level cancel on average
            tot = sum(z.shift.to('Hz').magnitude - quads.get((i, F, M), 0.0) * spec.B ** 2
                      for M, z in ((M, e[fk(F)][mk(M)]) for M in Ms(F)))
            big = abs((l['lande'] or 0) * spec.B) * 1e6 * (F + 1) ** 2 + sum(
                abs(quads.get((i, F, M), 0.0)) for M in Ms(F)) * spec.B ** 2
            m.ok(abs(tot) <= 1e-10 * big + 1e-3, 'zeeman-centroid', lambda: f'{l["name"]} F={F}/2: {tot}')


SCENARIOS = {'live': (320, 4000, live),
             'history': (160, 2500, history(['zeeman'], ('lande', 'field'), extra=('const', 'const', 'field')))}
REQUIRED = {'check:shift': 10000, 'F0': 100, 'field-off': 300, 'field-on': 3000, 'set-lande': 100, 'set-quad': 100,
            'set-field': 300, 'own-gF': 60, 'check:zeeman-centroid': 1000,
            'check:z-level': 3000, 'check:energy': 500}
