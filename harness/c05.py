import math

import numpy as np

import lib
import oracle as o
from engine import Skip
from lib import Fs, Ms

ID = 'C05'
RULE = ('Each case draws (I, J, J\', rank) and walks every sublevel pair and tensor component, or draws a polarization '
        '(and orthogonal propagation direction) and walks every sublevel pair of a multiplet.')
ASSUMPTIONS = ['Polarizations are real vectors of any length; E2 propagation directions are orthogonal to them.',
               'Phases of matrix elements are not compared, only squared magnitudes.',
               'The E2 direction average is not part of the claim.']


def draw(rng, jmax=9):
    I = rng.randrange(0, 10)
    k = rng.choice([1, 2])
    J0 = rng.randrange(0, jmax + 1)
    J1 = rng.choice([j for j in range(abs(J0 - 2 * k), J0 + 2 * k + 1, 2)])
    return I, k, J0, J1


def exact(I, k, q, J0, F0, M0, J1, F1, M1):
    if M1 - M0 != 2 * q:
        return 0.0
    return o.hf_strength(k, I, J0, F0, J1, F1) * o.z_strength(k, F0, M0, F1, M1)


def spell(rng, t):
    """a doubled quantum number as the library may be given it"""
    return t // 2 if t % 2 == 0 and rng.random() < 0.5 else t / 2


def tensor(rng, m):
    from atomtoolkit.transition_strengths import tkq_transition_strength, tkq_mel
    I, k, J0, J1 = draw(rng)
    m.op('tensor', I, k, J0, J1)
    h = lambda t: spell(rng, t)
    tot_all = 0.0
    for F0 in Fs(I, J0):
        for M0 in (Ms(F0) if F0 < 6 else sorted(rng.sample(Ms(F0), 4))):
            tot = 0.0
            for F1 in Fs(I, J1):
                for M1 in Ms(F1):
                    if abs(M1 - M0) > 2 * k:
                        if rng.random() < 0.05:
                            q = rng.randint(-k, k)
                            s = tkq_transition_strength(h(I), k, q, h(J0), h(F0), h(M0), h(J1), h(F1), h(M1))
                            m.ok(s == 0, 'forbidden-zero', lambda: f'{I, k, q, J0, F0, M0, J1, F1, M1}: {s}')
                        continue
                    for q in (range(-k, k + 1) if rng.random() < 0.2 else [(M1 - M0) // 2]):
                        s = tkq_transition_strength(h(I), k, q, h(J0), h(F0), h(M0), h(J1), h(F1), h(M1))
                        e = exact(I, k, q, J0, F0, M0, J1, F1, M1)
                        m.ok(abs(s - e) < 1e-11 * max(1, e), 'strength',
                             lambda: f'I,k,q,J0,F0,M0,J1,F1,M1 (doubled)={I, k, q, J0, F0, M0, J1, F1, M1}: {s} vs {e}')
                        a = tkq_mel(h(I), k, q, h(J0), h(F0), h(M0), h(J1), h(F1), h(M1))
                        m.ok(abs(abs(a) ** 2 - e) < 1e-11 * max(1, e), 'mel-squared',
                             lambda: f'{I, k, q, J0, F0, M0, J1, F1, M1}: {a}**2 vs {e}')
                        tot += s
            m.ok(abs(tot - 1 / (J0 + 1)) < 1e-10, 'sum-rule', lambda: f'{I, k, J0, F0, M0, J1}: {tot}')
            m.state(I, k, J0, F0, M0, J1)
            m.seen('sum-rules')


def vec(rng):
    r = rng.random()
    if r < 0.25:
        v = [0.0, 0.0, 0.0]
        v[rng.randrange(3)] = rng.choice([1, -1, 2.5])
    elif r < 0.4:
        v = [rng.gauss(0, 1), rng.gauss(0, 1), 0.0]
    else:
        v = [rng.gauss(0, 1) for _ in range(3)]
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def orth(rng, e):
    while True:
        v = vec(rng)
        d = sum(a * b for a, b in zip(v, e))
        w = [a - d * b for a, b in zip(v, e)]
        n = math.sqrt(sum(x * x for x in w))
        if n > 0.1:
            w = [x / n for x in w]
            d = sum(a * b for a, b in zip(w, e))
            return [a - d * b for a, b in zip(w, e)]


def geometric(rng, m):
    import atomtoolkit.transition_strengths as ts
    kind = rng.choice(['E1', 'M1', 'E2'])
    k = 2 if kind == 'E2' else 1
    I = rng.randrange(0, 6)
    J0 = rng.randrange(0, 6)
    J1 = rng.choice([j for j in range(abs(J0 - 2 * k), J0 + 2 * k + 1, 2)])
    if (I + 1) ** 2 * (J0 + 1) * (J1 + 1) > 1500:
        raise Skip
    e = vec(rng)
    L = rng.choice([1.0, 1.0, 0.3, 7.0])
    form = rng.choice([tuple, tuple, list, np.array])
    args = (form([x * L for x in e]),)
    dirs = (e,)
    if kind == 'E2':
        kk = orth(rng, e)
        L2 = rng.choice([1.0, 1.0, 0.2, 4.0])
        args += (form([x * L2 for x in kk]),)
        dirs += (kk,)
    m.seen('given-' + form.__name__)
    m.op('geom', kind, I, J0, J1, [[round(x, 6) for x in d] for d in dirs])
    strength = getattr(ts, kind + '_transition_strength_geom')
    mel = getattr(ts, kind + '_mel_geom')
    avg = getattr(ts, kind + '_transition_strength_avg')
    tot = tot_avg = 0.0
    for F0 in Fs(I, J0):
        for M0 in Ms(F0):
            for F1 in Fs(I, J1):
                for M1 in Ms(F1):
                    q = (M1 - M0) // 2
                    qn = [spell(rng, t) for t in (I, J0, F0, M0, J1, F1, M1)]
                    s = strength(*args, *qn)
                    a = mel(*args, *qn)
                    m.ok(abs(abs(a) ** 2 - s) < 1e-10, 'mel-vs-strength',
                         lambda: f'{kind} eps,k={dirs} qn={qn}: |{a}|^2 = {abs(a) ** 2} vs {s}')
                    want = 0.0
                    if abs(q) <= k:
                        want = exact(I, k, q, J0, F0, M0, J1, F1, M1)
                        if kind != 'E2':
                            w = e[2] ** 2 if q == 0 else 0.5 * (e[0] ** 2 + e[1] ** 2)
                        else:
                            w = quadrupole(*dirs, q)
                        m.ok(abs(s - w * want) < 1e-10, 'component-weight', lambda: f'{kind} {dirs} {qn}: {s}')
                    if want == 0:
                        m.ok(abs(s) < 1e-12, 'forbidden-geom', lambda: f'{kind} {dirs} {qn}: {s}')
                    tot += s
                    if kind != 'E2':
                        av = avg(*qn)
                        m.ok(abs(av - want / 3) < 1e-11, 'average', lambda: f'{kind} {qn}: {av} vs {want / 3}')
                        tot_avg += av
    if kind == 'E2':
        # directions that are not orthogonal are warned about, and only those
        tilt = rng.choice([0.0, 0.0, lib.logu(rng, 1e-3, 1) * rng.choice([1, -1])])
        off = form([(y + tilt * x) * L2 for x, y in zip(e, kk)])
        for f in (strength, mel):
            with lib.WarningLog() as log:
                f(args[0], off, *qn)
            m.ok(any('orthogonal' in t for t in log.texts) == (tilt != 0), 'orthogonal',
                 lambda: f'{kind} {dirs} tilted by {tilt}: {log.texts}')
            m.seen('tilted' if tilt else 'straight')
    n = (I + 1) / (2 * k + 1) * (2 if kind == 'E2' else 1)
    m.ok(abs(tot - n) < 1e-9 * max(1, n), 'isotropic-total', lambda: f'{kind} {dirs} I,J0,J1={I, J0, J1}: {tot} vs {n}')
    if kind != 'E2':
        m.ok(abs(tot_avg - n) < 1e-9 * max(1, n), 'average-total', lambda: f'{kind} {I, J0, J1}: {tot_avg} vs {n}')
    m.seen('total-' + kind)
    m.state(kind, I, J0, J1)


def averages(rng, m):
    """the averages are the mean of the geometric strengths over a spherical design"""
    import atomtoolkit.transition_strengths as ts
    kind = rng.choice(['E1', 'M1'])
    I, J0 = rng.randrange(0, 8), rng.randrange(0, 8)
    J1 = rng.choice([j for j in (J0 - 2, J0, J0 + 2) if j >= 0 and j + J0 >= 2] or [2])
    # an orthonormal triad is a 2-design: the mean over it is the mean over all directions of any quadratic form
    e1 = vec(rng)
    e2 = orth(rng, e1)
    n = math.sqrt(sum(x * x for x in e2))
    e2 = [x / n for x in e2]
    e3 = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
    m.op('avg', kind, I, J0, J1, [round(x, 6) for x in e1])
    for _ in range(30):
        F0, F1 = rng.choice(Fs(I, J0)), rng.choice(Fs(I, J1))
        M0 = rng.choice(Ms(F0))
        M1 = rng.choice([x for x in Ms(F1) if abs(x - M0) <= 2] or Ms(F1))
        qn = [t / 2 for t in (I, J0, F0, M0, J1, F1, M1)]
        f = getattr(ts, kind + '_transition_strength_geom')
        mean = sum(f(tuple(e), *qn) for e in (e1, e2, e3)) / 3
        a = getattr(ts, kind + '_transition_strength_avg')(*qn)
        m.ok(abs(mean - a) < 1e-10, 'mean-of-directions', lambda: f'{kind} {qn}: mean {mean}, avg {a}')
        m.state('avg', kind, *qn)


def quadrupole(e, k, q):
    """four times the squared spherical component of the traceless symmetric part of e k"""
    dot = sum(x * y for x, y in zip(e, k))
    T = [[(e[i] * k[j] + e[j] * k[i]) / 2 - (i == j) * dot / 3 for j in range(3)] for i in range(3)]
    c = [(2 * T[2][2] - T[0][0] - T[1][1]) / 6 ** .5, T[0][2] + 1j * T[1][2],
         (T[0][0] - T[1][1]) / 2 + 1j * T[0][1]][abs(q)]
    return 4 * abs(c) ** 2


def e2_average(rng, m):
    """the E2 average weighs the components by fixed, mirror symmetric weights that add up to one"""
    import atomtoolkit.transition_strengths as ts
    weight = {}
    m.op('e2-avg')
    for _ in range(400):
        I, J0 = rng.randrange(0, 8), rng.randrange(0, 8)
        J1 = rng.choice(range(abs(J0 - 4), J0 + 5, 2))
        F0, F1 = rng.choice(Fs(I, J0)), rng.choice(Fs(I, J1))
        M0 = rng.choice(Ms(F0))
        M1 = rng.choice([x for x in Ms(F1) if abs(x - M0) <= 4] or Ms(F1))
        q = (M1 - M0) // 2
        qn = [spell(rng, t) for t in (I, J0, F0, M0, J1, F1, M1)]
        a = ts.E2_transition_strength_avg(*qn)
        want = exact(I, 2, q, J0, F0, M0, J1, F1, M1) if abs(q) <= 2 else 0.0
        if want == 0:
            m.ok(a == 0, 'E2-average', lambda: f'{qn}: {a} of a forbidden component')
            continue
        w = weight.setdefault(abs(q), a / want)
        m.ok(w > 0 and abs(a - w * want) < 1e-9 * a, 'E2-average', lambda: f'{qn}: weight {a / want}, elsewhere {w}')
        m.seen('weighed')
        m.state('E2', *qn)
    if len(weight) == 3:
        m.close(weight[0] + 2 * weight[1] + 2 * weight[2], 1, 'E2-average', 'sum of the weights', rel=1e-9)
        m.seen('all-weights')


SCENARIOS = {'e2-average': (12, 120, e2_average), 'tensor': (150, 1500, tensor), 'geometric': (240, 3000, geometric), 'averages': (160, 2000, averages)}
REQUIRED = {'weighed': 500, 'all-weights': 3, 'given-tuple': 30, 'given-list': 15, 'given-array': 15, 'tilted': 15, 'straight': 15,
            'check:strength': 5000, 'check:sum-rule': 500, 'total-E1': 20, 'total-M1': 20, 'total-E2': 20,
            'check:forbidden-geom': 1000, 'check:mean-of-directions': 1000}
