import lib
import oracle as o
from lib import Fs, Spec, fk, mk, num, signed
from machine import history

ID = 'C07'
RULE = ('Each case builds an atom with random A, B, C (some zero) and interleaves edits of constants and energies, in '
        'random units, with reads of hyperfine energies, comparing each with a tensor-form shadow model.')
ASSUMPTIONS = ['A, B, C are defined by the stretched state: I J A + B/4 + C.',
               'Energies are compared to 1e-3 Hz plus 1e-14 of the magnitudes added up.']
UNITS = ['Hz', 'kHz', 'MHz', 'GHz', 'THz', 'cm^-1']
HZ = {'Hz': 1, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12, 'cm^-1': o.C_LIGHT * 100}


def quantity(rng, hz):
    import atomtoolkit as tk
    u = rng.choice(UNITS)
    return tk.Q_(hz / HZ[u], u)


def check_level(rng, m, spec, e, l, deep):
    tol = spec.tol(l, B=0.0) + 1e-15 * abs(l['E']) * 4
    m.close(e.level.to('Hz').magnitude, l['E'], 'level', l['name'], rel=1e-15, abs_=tol)
    fs = Fs(spec.I, l['J'])
    if not deep:
        fs = rng.sample(fs, min(2, len(fs)))
    mean, w = 0.0, 0
    for F in fs:
        h = e[fk(F)]
        want = spec.hf_shift(l, F)
        a, b, c = o.hf_coeffs(spec.I, l['J'], F)
        scale = 1e-3 + 1e-12 * (abs(a * l['A']) + abs(b * l['Bq']) + abs(c * l['C'])) + 1e-15 * abs(l['E'])
        m.ok(abs(h.shift.to('Hz').magnitude - want) <= scale, 'shift',
             lambda: f'{h.name} I={spec.I}/2 A,B,C={l["A"], l["Bq"], l["C"]}: {h.shift} vs {want}')
        m.ok(abs(h.level.to('Hz').magnitude - (l['E'] + want)) <= tol, 'hf-level',
             lambda: f'{h.name}: {h.level} vs {l["E"] + want}')
        for i, x in enumerate((a, b, c)):
            m.seen(f'rank{i + 1}-' + ('active' if x else 'inactive'))
        mean += (F + 1) * h.shift.to('Hz').magnitude
        w += F + 1
        if rng.random() < 0.2:
            # without a field every Zeeman sublevel lies at its hyperfine level
            z = h[mk(rng.choice(lib.Ms(F)))]
            if not spec.B:
                m.ok(abs(z.level.to('Hz').magnitude - h.level.to('Hz').magnitude) <= tol, 'z-rigid', z.name)
        m.state(spec.I, l['J'], F)
    if deep:
        mean /= w
        big = (abs(l['A']) * spec.I * l['J'] + abs(l['Bq']) + abs(l['C']) * 5) + 1
        m.ok(abs(mean) <= 1e-11 * big + 1e-3, 'centroid', lambda: f'{l["name"]} I={spec.I}/2: mean shift {mean}')


def live(rng, m):
    big = rng.random() < 0.08
    spec = Spec(rng, nlev=(1, 2) if big else (1, 4), I=list(range(8, 19)) if big else list(range(0, 11)),
                Jmax=21 if big else 11, same_statistics=False, hf=0.85, B=0.3,
                energies=rng.choice(['spread', 'close']))
    atom, levels = spec.build(rng, m)
    for l in spec.levels:
        l['was'] = 0
    for step in range(rng.randint(6, 14)):
        i = rng.randrange(len(levels))
        e, l = levels[i], spec.levels[i]
        act = rng.choice(['read', 'read', 'A', 'B', 'C', 'E', 'field'])
        if act == 'read':
            j = rng.randrange(len(levels))
            check_level(rng, m, spec, levels[j], spec.levels[j], False)
            continue
        if act == 'field':
            import atomtoolkit as tk
            spec.B = signed(rng, 1e-2, 1e4)
            atom.B = spec.B * tk.G
            m.op('set-field', spec.B)
        elif act == 'E':
            l['E'] = rng.choice([rng.uniform(0, 1e15), rng.uniform(-1e9, 1e9), 0.0])
            m.op('set-level', l['name'], l['E'])
            e.level = quantity(rng, l['E'])
        else:
            k = dict(A='A', B='Bq', C='C')[act]
            l[k] = 0.0 if rng.random() < 0.15 else signed(rng, 1e3, 1e10)
            m.op('set-hf' + act, l['name'], l[k])
            q = quantity(rng, l[k])
            setattr(e, 'hf' + act, q)
            m.close(getattr(e, 'hf' + act).to('Hz').magnitude, l[k], 'constant', l['name'], rel=1e-13)
        check_level(rng, m, spec, e, l, rng.random() < 0.4)
    for e, l in zip(levels, spec.levels):
        check_level(rng, m, spec, e, l, True)


def table(rng, m):
    """one manifold, all F, one constant at a time (finds a wrong coefficient without cancellation)"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom, EnergyLevel
    from atomtoolkit.term import Term
    I = rng.randrange(0, 13)
    atom = Atom('T', I=num(rng, I))
    for J in rng.sample(range(0, 17), 6):
        t = lib.level_term(rng, J, J)
        which = rng.choice('ABC')
        v = signed(rng, 1e6, 1e10)
        m.op('table', I, J, which, v)
        kw = {'hf' + which: quantity(rng, v)}
        e = EnergyLevel(Term(t['conf'], t['term'], num(rng, J)), 0.0 * tk.Hz, **kw)
        atom.add_level(e)
        for F in Fs(I, J):
            want = o.hf_coeffs(I, J, F)['ABC'.index(which)] * v
            got = e[fk(F)].shift.to('Hz').magnitude
            m.ok(abs(got - want) <= 1e-11 * abs(v) * (1 + I * J), 'coefficient',
                 lambda: f'I={I}/2 J={J}/2 F={F}/2 hf{which}: {got / v} vs {want / v}')
            m.state(which, I, J, F)


SCENARIOS = {'live': (240, 3000, live), 'table': (160, 1600, table),
             'history': (120, 2000, history(['hf'], ('hf',), extra=('const',) * 4))}
REQUIRED = {'check:shift': 2000, 'check:centroid': 300, 'rank3-active': 300, 'rank2-active': 500, 'rank3-inactive': 300,
            'set-hfA': 50, 'set-hfB': 50, 'set-hfC': 50, 'set-level': 50, 'check:coefficient': 1000,
            'check:hf-level': 3000, 'check:energy': 100}
