import oracle as o
from oracle import tri, trange

ID = 'C03'
RULE = ('Each case asks for 30 symbols: drawn inside the selection rules, on their borders, or violating exactly one of '
        'them, as ints or floats, with earlier arguments asked again later in the case; the answer is compared with '
        'an exact rational Racah evaluation.')
ASSUMPTIONS = ['The optional py3nj back end is not installed; the sympy back end is what runs.']


def half(rng, t):
    return t // 2 if t % 2 == 0 and rng.random() < .5 else t / 2


def ask(m, rng, fn, name, args, want, zero):
    got = fn(*[half(rng, a) for a in args])
    m.op(name, *args)
    if zero:
        m.ok(got == 0.0, 'selection-zero', lambda: f'{name}{args}/2 = {got!r} although a selection rule is violated')
        m.seen('zero:' + name)
    else:
        m.ok(abs(got - want) <= 1e-13 + 1e-11 * abs(want), 'value', lambda: f'{name}{args}/2 = {got!r}, exact {want!r}')
        if abs(want) > 1e-9:
            m.state(name, args)
            m.seen('nonzero:' + name)
            m.ok(got != 0.0, 'nonzero', lambda: f'{name}{args}/2 is 0')
    m.ok(isinstance(got, float) or float(got) == got, 'plain-number')
    return got


def draw3(rng, jm):
    a, b = rng.randrange(0, jm), rng.randrange(0, jm)
    c = rng.choice(list(trange(a, b)))
    js = [a, b, c]
    ms = [rng.randrange(-a, a + 1, 2), rng.randrange(-b, b + 1, 2)]
    ms.append(-ms[0] - ms[1])
    r = rng.random()
    if r < .25:
        i = rng.randrange(3)
        k = rng.randrange(4)
        if k == 0:
            js[i] += rng.choice([1, 2, -1, -2, 4, 6])
        elif k == 1:
            ms[i] += rng.choice([1, -1, 2, -2])
        elif k == 2:
            ms[i] = js[i] + 2
            j = (i + 1) % 3
            ms[j] = -ms[i] - ms[(i + 2) % 3]
        else:
            js[i] = abs(js[i - 1]) + abs(js[i - 2]) + 2
    elif r < .35:                       # m = 0 with odd sum of j
        ms = [0, 0, 0]
        js = [x - x % 2 for x in js]
    if min(js) < 0:
        js = [abs(j) for j in js]
    return tuple(js + ms)


def zero3(a):
    j, mm = a[:3], a[3:]
    return (not tri(*j)) or sum(mm) != 0 or any(abs(x) > y or (x - y) % 2 for x, y in zip(mm, j))


def draw6(rng, jm):
    a, b = rng.randrange(0, jm), rng.randrange(0, jm)
    c = rng.choice(list(trange(a, b)))
    d = rng.randrange(0, jm)
    es = [e for e in trange(d, c)]
    e = rng.choice(es)
    fs = [f for f in trange(a, e) if tri(d, b, f)] or [0]
    v = [a, b, c, d, e, rng.choice(fs)]
    if rng.random() < .3:
        i = rng.randrange(6)
        v[i] = max(0, v[i] + rng.choice([1, -1, 2, -2, 4, 8]))
    if rng.random() < .1:
        rng.shuffle(v)
    return tuple(v)


def zero6(v):
    a, b, c, d, e, f = v
    return not (tri(a, b, c) and tri(a, e, f) and tri(d, b, f) and tri(d, e, c))


def draw9(rng, jm):
    for _ in range(200):
        v = [rng.randrange(0, jm) for _ in range(4)]
        a, b, d, e = v
        c = rng.choice(list(trange(a, b)))
        f = rng.choice(list(trange(d, e)))
        g = rng.choice(list(trange(a, d)))
        h = rng.choice(list(trange(b, e)))
        i = [x for x in trange(c, f) if tri(g, h, x)]
        if i:
            w = [a, b, c, d, e, f, g, h, rng.choice(i)]
            if jm > 6 or max(w) <= 8 or rng.random() < .05:
                break
    else:
        w = [0] * 9
    if rng.random() < .25:
        k = rng.randrange(9)
        w[k] = max(0, w[k] + rng.choice([1, -1, 2, -2, 4]))
    return tuple(w)


def draw9big(rng, jm):
    """large angular momenta, where the exact value is small but not zero"""
    while True:
        w = draw9(rng, jm)
        if max(w) > 5 and not zero9(w) and abs(o.w9j(*w)) < 1e-3:
            return w


def zero9(v):
    a, b, c, d, e, f, g, h, i = v
    return not all(tri(*r) for r in ((a, b, c), (d, e, f), (g, h, i), (a, d, g), (b, e, h), (c, f, i)))


def symmetric(rng, m, name, args, got, fn):
    """a symmetry of the symbol, so that the cache is hit in many argument orders"""
    if name == '3j':
        p = [args[1], args[0], args[2], args[4], args[3], args[5]]
        ph = (-1) ** (sum(args[:3]) // 2) if sum(args[:3]) % 2 == 0 else 1
    elif name == '6j':
        p, ph = [args[i] for i in (1, 0, 2, 4, 3, 5)], 1
    else:
        p, ph = [args[i] for i in (0, 3, 6, 1, 4, 7, 2, 5, 8)], 1
    g2 = fn(*[half(rng, a) for a in p])
    m.ok(abs(g2 - ph * got) <= 1e-12, 'symmetry', lambda: f'{name}{args} vs permuted {p}: {got} {g2}')


def scen(name, draw, zero, exact, jm, n):
    def run(rng, m):
        from atomtoolkit import wigner
        fn = {'3j': wigner.wigner3j, '6j': wigner.wigner6j, '9j': wigner.wigner9j}[name]
        past = []
        for _ in range(n):
            if past and rng.random() < .3:
                a, before = rng.choice(past)
                got = ask(m, rng, fn, name, a, exact(*a), zero(a))
                m.ok(got == before, 'repeatable', lambda: f'{name}{a}: {before} then {got}')
            else:
                a = draw(rng, jm)
                got = ask(m, rng, fn, name, a, exact(*a), zero(a))
                past.append((a, got))
                if rng.random() < .3:
                    symmetric(rng, m, name, a, got, fn)
    return run


def used_by_atoms(rng, m):
    """the argument patterns the library itself uses: rank 1 and 2, all projections, summed to the closure relations"""
    from atomtoolkit.wigner import wigner3j, wigner6j
    k = rng.choice([1, 2])
    F0 = rng.randrange(0, 15)
    F1 = rng.choice([f for f in range(F0 % 2, 19, 2) if abs(f - F0) <= 2 * k + 2])
    tot = 0.0
    for m0 in range(-F0, F0 + 1, 2):
        for m1 in range(-F1, F1 + 1, 2):
            for q in range(-k, k + 1):
                a = (F1, 2 * k, F0, -m1, 2 * q, m0)
                tot += ask(m, rng, wigner3j, '3j', a, o.w3j(*a), zero3(a)) ** 2
    m.close(tot, 1.0 if tri(F0, 2 * k, F1) else 0.0, 'closure', f'3j {F0} {k} {F1}', abs_=1e-9)
    I, J0, J1 = rng.randrange(0, 10), rng.randrange(0, 10), rng.randrange(0, 10)
    if (J0 - J1) % 2:
        J1 += 1
    F0 = rng.choice(list(trange(I, J0)))
    tot = 0.0
    for F1 in trange(I, J1):
        a = (J0, J1, 2 * k, F1, F0, I)
        tot += (F1 + 1) * ask(m, rng, wigner6j, '6j', a, o.w6j(*a), zero6(a)) ** 2
    m.close(tot * (J0 + 1), 1.0 if tri(J0, J1, 2 * k) else 0.0, 'closure', f'6j {J0} {J1} {k} {I}', abs_=1e-9)


SCENARIOS = {'3j': (900, 12000, scen('3j', draw3, zero3, o.w3j, 17, 30)),
             '6j': (900, 12000, scen('6j', draw6, zero6, o.w6j, 17, 30)),
             '9j': (160, 2500, scen('9j', draw9, zero9, o.w9j, 6, 12)),
             '9j-big': (64, 800, scen('9j', draw9big, zero9, o.w9j, 9, 5)),
             'atoms': (400, 3000, used_by_atoms)}
REQUIRED = {f'{z}:{n}': k for n, k in (('3j', 3000), ('6j', 3000), ('9j', 100)) for z in ('zero', 'nonzero')}
