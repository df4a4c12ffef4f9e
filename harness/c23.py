import math

import numpy as np

import lib

ID = 'C23'
RULE = ('Each case draws a line shape with random widths (over ten decades), temperature, mass, modulation and amplitude, '
        'evaluates it on random and structured points (scalars, arrays, integers) around random centres, and compares '
        'with independently computed profiles and the shape laws (symmetry, peak, monotonicity, linearity, widths).')
ASSUMPTIONS = ['Thermal shapes have positive centres; the thermal shape may replace the convolution by its Lorentzian or '
               'Gaussian limit when one width exceeds the other about 20-fold.',
               'An added natural width is given in the unit of the positions (Lorentzian shape).',
               'A modulated shape without a number of sidebands may leave out sidebands adding up to 1e-3.']
KB, C, AMU = 1.380649e-23, 299792458.0, 1.66053906660e-27


def voigt(x, sigma, gamma):
    """peak-normalised convolution of a Gaussian and a Lorentzian of FWHM gamma"""
    from scipy.special import wofz
    z = (np.asarray(x) + 0.5j * gamma) / (sigma * math.sqrt(2))
    return wofz(z).real / wofz(0.5j * gamma / (sigma * math.sqrt(2))).real


def lor(x, g):
    return 1 / (1 + (2 * np.asarray(x) / g) ** 2)


def bessel2(n, d):
    from scipy.special import jv
    return float(jv(n, d)) ** 2


def law(rng, m, f, x0, w, ampl, what, tol=1e-12, mono=True, eps=0.0):
    """f(x) -> y; w a width scale"""
    ulp = abs(x0) * 2.3e-16
    d = np.array(sorted(lib.logu(rng, max(1e-3 * w, 40 * ulp), 30 * w) for _ in range(14)))
    up, dn = f(x0 + d), f(x0 - d)
    # positions are rounded at the scale of the centre
    slack = tol + 4 * (ulp / w)
    m.ok(np.all(np.abs(up - dn) <= slack * abs(ampl) * 2), 'symmetric', lambda: f'{what}: {up} {dn}')
    pk = float(f(x0))
    m.close(pk, ampl, 'peak', what, rel=1e-9, abs_=0)
    m.ok(np.all(np.abs(up) <= abs(ampl) * (1 + 1e-9)), 'bounded', lambda: f'{what}: {up}')
    m.ok(np.all(up * ampl >= 0), 'sign', what)
    if mono and ampl:
        y = np.concatenate([[pk], up]) / ampl
        m.ok(np.all(np.diff(y) <= slack), 'monotone', lambda: f'{what}: {y}')
        wide = np.abs(np.diff(y)) > slack
        m.seen('strict', int(wide.sum()))
    for k in (0, 3, 9):
        m.close(float(f(x0 + float(d[k]))), float(up[k]), 'scalar', what, rel=1e-12, abs_=1e-300)
    return d, up


def call(rng, shape, x0, **kw):
    if rng.random() < .5:
        return lambda x: shape.shape_func(x, x0, **kw)
    return lambda x: shape.shape_func(x, x0=x0, **kw)


def amplitude(rng):
    return rng.choice([None, 1.0, 0.0, lib.logu(rng, 1e-6, 1e6), lib.logu(rng, 1e-6, 1e6), 2])


def scaled(rng, m, shape, x0, w, kw, ampl, what):
    x = x0 + w * np.linspace(-3, 3, 11)
    one = shape.shape_func(x, x0, **kw, ampl=1.0)
    for a in (ampl, 3.5, 0.0):
        got = shape.shape_func(x, x0, **kw, ampl=a)
        m.ok(np.allclose(got, a * one, rtol=1e-12, atol=1e-300), 'linear', lambda: f'{what} ampl {a}')
    m.ok(np.allclose(shape.shape_func(x, x0, **kw), one, rtol=1e-12, atol=1e-300), 'default-ampl', what)


def window(rng, m, shape, x0, w, kw, what, reach, side=0.0, wide=None):
    """w: the width the padding counts in (up to wide, for a width made of two); side: what lies beyond the padding"""
    n = rng.choice([None, 2, 3, 11, 100, 1001, rng.randint(2, 3000)])
    args = dict(kw)
    if n is not None:
        args['num_points'] = n
    p = None
    if rng.random() < .5:
        p = rng.choice([1.0, 5, 100.0, lib.logu(rng, .5, 300)])
        args['padding'] = p
    x, y = shape.compute(x0, **args)
    x, y = np.asarray(x), np.asarray(y)
    m.ok(x.shape == (n or 1000,) and y.shape == x.shape, 'points', lambda: f'{what}: {n} asked, {x.shape} {y.shape}')
    ulp = abs(x0) * 4.5e-16
    half = (x[-1] - x[0]) / 2
    m.ok(abs(x[0] + x[-1] - 2 * x0) <= 4 * ulp + 1e-9 * half, 'window-centred', lambda: f'{what}: {x[0]} {x[-1]} about {x0}')
    steps = np.diff(x)
    m.ok(np.all(steps > -4 * ulp) and np.allclose(steps, 2 * half / (len(x) - 1), rtol=1e-6, atol=4 * ulp), 'window-even', what)
    if p is not None:
        lo, hi = p * w + side, p * (wide or w) + side
        m.ok(lo * (1 - 1e-7) - 4 * ulp <= half <= hi * (1 + 1e-7) + 4 * ulp, 'window-padding',
             lambda: f'{what}: half width {half} for padding {p}, expected {lo} to {hi}')
    else:
        m.ok(half >= reach * (1 - 1e-9) - 4 * ulp, 'window-spans', lambda: f'{what}: half width {half}, line needs {reach}')
    m.ok(np.array_equal(y, np.asarray(shape.shape_func(x, x0, **kw))) or
         np.allclose(y, shape.shape_func(x, x0, **kw), rtol=1e-12), 'window-values', what)
    m.seen('windows')


def centre(rng, w, positive=False):
    c = rng.randrange(5)
    x0 = w * lib.logu(rng, 1e-3, 1e9) if c < 4 else 0.0
    if positive:
        return x0 or w
    return x0 if rng.random() < .5 else -x0


def lorentz(rng, m):
    from atomtoolkit.render import lineshapes as ls
    g = lib.logu(rng, 1e-6, 1e4)
    x0 = centre(rng, g)
    kw = {}
    w = g
    if rng.random() < .5:
        kw['A_coeff'] = rng.choice([0.0, g * lib.logu(rng, 1e-3, 1e3)])
        w = g + kw['A_coeff']
    a = amplitude(rng)
    m.op('lorentzian', g, x0, kw, a)
    s = ls.LorentzianLineShape(g if rng.random() < .5 else np.float64(g))
    A = 1.0 if a is None else a
    full = dict(kw) if a is None else dict(kw, ampl=a)
    what = f'Lorentzian {g} at {x0} {full}'
    f = call(rng, s, x0, **full)
    d, up = law(rng, m, f, x0, w, A, what)
    slack = 1e-9 + 8 * abs(x0) * 2.3e-16 / w
    m.ok(np.all(np.abs(up - A * lor(d, w)) <= slack * abs(A)), 'profile', lambda: f'{what}: {up} vs {A * lor(d, w)}')
    m.ok(abs(float(f(x0 + w / 2)) - A / 2) <= slack * abs(A), 'half-width', what)
    m.close(float(s.fwhm), g, 'fwhm', what)
    scaled(rng, m, s, x0, w, kw, A, what)
    window(rng, m, s, x0, w, full, what, w)
    y = ls.lorentzian(x0 + d, x0, w, A) if rng.random() < .5 else ls.lorentzian(x0 + d, x0, gamma=w, ampl=A)
    m.ok(np.allclose(y, up, rtol=1e-9, atol=slack * abs(A)), 'function', what)
    y = ls.lorentzian(x0 + d, x0, w)
    m.ok(np.all(np.abs(y - lor(d, w)) <= slack), 'function-default', what)
    m.state('L', round(math.log10(g)), bool(kw))


def gauss(rng, m):
    from atomtoolkit.render import lineshapes as ls
    g = lib.logu(rng, 1e-6, 1e4)
    x0 = centre(rng, g)
    a = amplitude(rng)
    m.op('gaussian', g, x0, a)
    s = ls.GaussianLineShape(g)
    A = 1.0 if a is None else a
    full = {} if a is None else dict(ampl=a)
    what = f'Gaussian {g} at {x0} {full}'
    f = call(rng, s, x0, **full)
    d, up = law(rng, m, f, x0, g, A, what)
    slack = 1e-9 + 8 * abs(x0) * 2.3e-16 / g
    m.ok(np.all(np.abs(up - A * np.exp(-(d / g) ** 2 / 2)) <= slack * abs(A)), 'profile', what)
    m.ok(abs(float(f(x0 + g)) - A * math.exp(-.5)) <= slack * abs(A), 'sigma', what)
    m.ok(abs(float(f(x0 - s.fwhm / 2)) - A / 2) <= (slack + 1e-3) * abs(A), 'half-width', what)
    scaled(rng, m, s, x0, g, {}, A, what)
    window(rng, m, s, x0, g, full, what, 2 * g)
    y = ls.gaussian(x0 + d, x0, g, A)
    m.ok(np.allclose(y, up, rtol=1e-9, atol=slack * abs(A)), 'function', what)
    y = ls.gaussian(x0 + d, x0, g)
    m.ok(np.all(np.abs(y - np.exp(-(d / g) ** 2 / 2)) <= slack), 'function-default', what)
    m.state('G', round(math.log10(g)))


def temperature(rng, m, sigma_rel):
    """temperature and mass quantities that give about the wanted relative Doppler width; the exact width"""
    import atomtoolkit as tk
    mass = rng.uniform(1, 250)
    T = sigma_rel ** 2 * mass * AMU * C ** 2 / KB
    qT = rng.choice([tk.Q_(T, 'K'), tk.Q_(T * 1e3, 'mK'), tk.Q_(T, 'kelvin')])
    qm = rng.choice([tk.Q_(mass, 'amu'), tk.Q_(mass * AMU, 'kg'), tk.Q_(mass * AMU * 1e3, 'g')])
    m.op('thermal', T, mass)
    return qT, qm


def thermal(rng, m):
    from atomtoolkit.render import lineshapes as ls
    rel = lib.logu(rng, 1e-9, 1e-4)
    qT, qm = temperature(rng, m, rel)
    x0 = lib.logu(rng, 1e-2, 1e6)
    sig = rel * x0
    a = amplitude(rng)
    A = 1.0 if a is None else a
    full = {} if a is None else dict(ampl=a)
    slack = 1e-8 + 8 * x0 * 2.3e-16 / sig            # 1e-8: digits of the atomic mass constant
    if rng.random() < .3:
        s = ls.ThermalGaussianLineShape(qT, qm)
        what = f'thermal Gaussian {rel} at {x0} {full}'
        f = call(rng, s, x0, **full)
        d, up = law(rng, m, f, x0, sig, A, what)
        m.ok(np.all(np.abs(up - A * np.exp(-(d / sig) ** 2 / 2)) <= slack * abs(A)), 'profile', what)
        m.ok(abs(float(f(x0 + sig)) - A * math.exp(-.5)) <= slack * abs(A), 'doppler-width', what)
        m.ok(abs(float(f(x0 - s.fwhm * x0 / 2)) - A / 2) <= (slack + 1e-3) * abs(A), 'half-width', what)
        scaled(rng, m, s, x0, sig, {}, A, what)
        window(rng, m, s, x0, sig, full, what, 2 * sig)
        m.state('TG', round(math.log10(rel)))
        return
    ratio = rng.choice([lib.logu(rng, 1e-8, 1e8), lib.logu(rng, .02, 50), lib.logu(rng, .1, 10)])
    gam = sig * ratio
    s = ls.ThermalLineShape(qT, qm, gam)
    what = f'thermal {rel} gamma/sigma={ratio} at {x0} {full}'
    m.op('ratio', ratio)
    f = call(rng, s, x0, **full)
    w = max(sig, gam)
    d, up = law(rng, m, f, x0, w, A, what, tol=1e-9)
    slack += 8 * x0 * 2.3e-16 / w
    want = A * voigt(d, sig, gam)
    near = slack + (2e-2 if ratio < .06 else 6e-3 if ratio > 18 else 0)
    m.ok(np.all(np.abs(up - want) <= near * abs(A)), 'convolution', lambda: f'{what}: {up} vs {want}')
    if ratio < 1e-3:
        m.ok(np.all(np.abs(up - A * np.exp(-(d / sig) ** 2 / 2)) <= (slack + ratio) * abs(A)), 'gaussian-limit', what)
        m.seen('gaussian-limit')
    elif ratio > 1e3:
        m.ok(np.all(np.abs(up - A * lor(d, gam)) <= (slack + 10 / ratio ** 2) * abs(A)), 'lorentzian-limit', what)
        m.seen('lorentzian-limit')
    else:
        m.seen('convolution')
    scaled(rng, m, s, x0, w, {}, A, what)
    window(rng, m, s, x0, w, full, what, w, wide=sig + gam)
    m.state('T', round(math.log10(rel)), round(math.log10(ratio)))


def modulated(rng, m):
    from atomtoolkit.render import lineshapes as ls
    g = lib.logu(rng, 1e-4, 1e2)
    depth = rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0, 3), rng.uniform(0, 8)])
    fm = g * lib.logu(rng, .05, 1e3)
    n = rng.choice([None, None, 0, 1, 2, rng.randint(0, 12)])
    x0 = centre(rng, g) if rng.random() < .8 else float(rng.randint(-50, 50))
    a = amplitude(rng)
    A = 1.0 if a is None else a
    full = {} if a is None else dict(ampl=a)
    m.op('modulated', g, depth, fm, n, x0, a)
    s = ls.ModLorentzianLineShape(g, depth, fm, n) if rng.random() < .5 else \
        ls.ModLorentzianLineShape(gamma=g, depth=depth, mod_freq_GHz=fm, num_sidebands=n)
    what = f'modulated {g} depth {depth} fm {fm} n {n} at {x0} {full}'
    N = n if n is not None else 60
    k = rng.randint(0, max(1, min(N, 6)))
    pts = np.array([0.0, fm, -fm, k * fm, -k * fm, fm / 2] + [rng.uniform(-1, 1) * (k + 2) * fm for _ in range(8)]
                   + [rng.uniform(-3, 3) * g for _ in range(6)])
    x = x0 + pts
    pts = x - x0                            # the positions as rounded
    want = A * sum(bessel2(abs(i), depth) * lor(pts - i * fm, g) for i in range(-N, N + 1))
    got = np.asarray(call(rng, s, x0, **full)(x))
    tol = (1e-9 if n is not None else 1e-3) + 1e-14 * (abs(x0) + N * fm) / g
    m.ok(np.all(np.abs(got - want) <= tol * abs(A)), 'sidebands', lambda: f'{what}: {got} vs {want}')
    mirror = np.asarray(s.shape_func(x0 - pts, x0, **full))
    m.ok(np.all(np.abs(got - mirror) <= (1e-9 + 1e-14 * (abs(x0) + N * fm) / g) * abs(A)), 'symmetric', what)
    m.ok(np.all(got * A >= 0), 'sign', what)
    scaled(rng, m, s, x0, g, {}, A, what)
    last = n if n is not None else int(s.num_sidebands)
    window(rng, m, s, x0, g, full, what, last * fm + g, side=last * fm)
    y = ls.mod_lorentzian(x, x0, g, ampl=A, depth=depth, num_sidebands=last, mod_freq_GHz=fm)
    m.ok(np.allclose(y, got, rtol=1e-9, atol=1e-12 * abs(A)), 'function', what)
    if a is None or a == 1:
        y = ls.mod_lorentzian(x, x0, g, depth=depth, num_sidebands=last, mod_freq_GHz=fm)
        m.ok(np.allclose(y, got, rtol=1e-9, atol=1e-12), 'function-default', what)
    y = ls.mod_lorentzian(x, x0, g, num_sidebands=last)
    m.ok(np.all(np.abs(y - lor(pts, g)) <= 1e-9 + 1e-14 * abs(x0) / g), 'unmodulated', what)
    if n is not None and x0 == int(x0):
        # whole-number positions
        xi = np.arange(-5, 6) + int(x0)
        gi = np.asarray(s.shape_func(xi, int(x0), **full))
        m.ok(np.allclose(gi, s.shape_func(xi.astype(float), x0, **full), rtol=1e-12), 'integer-positions', what)
        m.seen('integers')
    m.seen('sidebands', last)
    m.state('M', round(depth, 1), n, round(math.log10(fm / g)))


SCENARIOS = {'lorentzian': (1200, 12000, lorentz), 'gaussian': (800, 8000, gauss), 'thermal': (1200, 12000, thermal),
             'modulated': (1500, 15000, modulated)}
REQUIRED = {'windows': 1000, 'strict': 5000, 'gaussian-limit': 20, 'lorentzian-limit': 20, 'convolution': 100,
            'sidebands': 500, 'integers': 20, 'check:half-width': 400, 'check:doppler-width': 50}
