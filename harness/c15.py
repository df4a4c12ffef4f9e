import itertools

import lib
import oracle as o
from c14 import Shadow, quantity
from engine import Skip
from lib import Fs, Ms, Spec, dbl, fk, mk
from machine import history

ID = 'C15'
RULE = ('Each case builds an atom with hyperfine and Zeeman structure and performs a random history of assigning '
        'energies to sublevels, setting frequencies of sub-transitions, and changing fields and constants; after every '
        'step level energies, splittings and sub-transition frequencies are compared with a shadow model.')
ASSUMPTIONS = ['Setting the frequency of a sub-transition leaves its two levels, and those of its parent, in the order they '
               'are in.', 'Levels tied by set frequencies to an edited level are only required to keep their own '
               'splittings.', 'The set transitions form no closed loop.']


def level_energy(l, sh, spec, sub, quads=None):
    E = sh.E[l['name']]
    if sub:
        E += spec.hf_shift(l, sub[0])
        if len(sub) > 1:
            E += spec.z_shift(l, *sub)
    return E


def tolerance(sh, spec):
    if getattr(spec, 'fine', False):
        return 1e-3 + 1e-13 * max(abs(v) for v in sh.E.values())
    s = max(abs(v) for v in sh.E.values()) + 1e9
    return 4e-14 * s + 1e-2 + 3e-9 * sum(abs((l['lande'] or 0) * 6 * spec.B) * 1.4e6 for l in spec.levels) + max(
        spec.tol(l) for l in spec.levels)


def obj(e, sub):
    if sub:
        e = e[fk(sub[0])]
        if len(sub) > 1:
            e = e[mk(sub[1])]
    return e


def audit(rng, m, spec, levels, sh, ts, what, free=None):
    tol = tolerance(sh, spec)
    for e, l in zip(levels, spec.levels):
        m.ok(abs(e.level.to('Hz').magnitude - sh.E[l['name']]) <= tol, 'energy',
             lambda: f'{what}: {l["name"]} at {e.level.to("Hz").magnitude!r}, expected {sh.E[l["name"]]!r}')
        F = rng.choice(Fs(spec.I, l['J']))
        M = rng.choice(Ms(F))
        for sub in ((F,), (F, M)):
            x = obj(e, sub)
            m.ok(abs(x.level.to('Hz').magnitude - level_energy(l, sh, spec, sub)) <= tol, 'splitting',
                 lambda: f'{what}: {x.name} at {x.level}, expected {level_energy(l, sh, spec, sub)!r}')
    for t, i, j in ts:
        m.ok(abs(t.freq.to('Hz').magnitude - abs(sh.E[spec.levels[i]['name']] - sh.E[spec.levels[j]['name']])) <= tol,
             'difference', lambda: f'{what}: {t.name} {t.freq}')
        subs = list(t.values())
        for s in rng.sample(subs, min(2, len(subs))):
            m.ok(abs(s.freq.to('Hz').magnitude - abs(s.E_1.level.to('Hz').magnitude - s.E_2.level.to('Hz').magnitude))
                 <= tol, 'difference', lambda: f'{what}: {s.name} {s.freq}')
            m.ok(abs(s.freq.to('Hz').magnitude - expected_freq(s, levels, spec, sh)) <= 2 * tol, 'sub-freq',
                 lambda: f'{what}: {s.name} {s.freq}')


def expected_freq(s, levels, spec, sh):
    out = []
    for x in (s.E_1, s.E_2):
        l = next(l for e, l in zip(levels, spec.levels) if e is x.manifold)
        sub = [dbl(x.term.F)] + ([dbl(x.term.mF)] if x.term.mF is not None else [])
        out.append(level_energy(l, sh, spec, sub))
    return abs(out[0] - out[1])


def all_subs(t):
    return [s for s in t.values()] + [z for s in t.values() for z in s.values()]


def live(rng, m, fine=False):
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    spec = Spec(rng, nlev=(2, 4), I=[0, 1, 2, 3], Jmax=4, aliases=0.2, hf=0.8, B=0.7,
                energies=lambda r, i: (i + r.uniform(0, 0.5)) * 2e14 - r.choice([0, 3e14]))
    spec.B = max(-3e3, min(3e3, spec.B))
    far, steps, small, step_B = 2e13, (1, 1e12), (1e3, 1e7), 1e3
    for l in spec.levels:
        for k in ('A', 'Bq', 'C'):
            l[k] = max(-1e10, min(1e10, l[k]))
            if fine:
                l[k] *= 1e-6
        if fine:
            l['E'] *= 1e-5
    if fine:
        # everything near zero: the smallest moves count
        far, steps, small, step_B = 2e8, (1e-2, 1e6), (1e-2, 1e2), 1e-3
        spec.fine = True
        spec.B *= 1e-6
    atom, levels = spec.build(rng, m)
    sh = Shadow({l['name']: l['E'] for l in spec.levels})
    ts = []
    for i, j in itertools.combinations(range(len(levels)), 2):
        if any(lib.pair_kinds(spec.levels[i], spec.levels[j])) and rng.random() < 0.8:
            a, b = (i, j) if rng.random() < 0.5 else (j, i)
            ts.append((atom.add_transition(Transition(levels[a], levels[b])), i, j))
    audit(rng, m, spec, levels, sh, ts, 'start')
    for step in range(rng.randint(5, 10)):
        act = rng.choice(['sublevel', 'sublevel', 'sublevel', 'sub-freq', 'sub-freq', 'sub-freq', 'level', 'field', 'hf',
                          'top-freq'])
        i = rng.randrange(len(levels))
        e, l = levels[i], spec.levels[i]
        if act in ('sublevel', 'level'):
            F = rng.choice(Fs(spec.I, l['J']))
            sub = rng.choice([(F,), (F, rng.choice(Ms(F)))]) if act == 'sublevel' else ()
            x = obj(e, sub)
            n = l['name']
            tied = sh.group(n) - {n}
            if tied and rng.random() < 0.7:
                continue
            target = level_energy(l, sh, spec, sub) + rng.choice([lib.signed(rng, *steps), lib.signed(rng, *small), 0.0, lib.signed(rng, far / 20, 2.5 * far)])
            q = tk.Q_(target / 1e9, 'GHz') if rng.random() < 0.5 else target * tk.Hz
            before = {k: v for k, v in sh.E.items()}
            m.op(act, x.name, target)
            x.level = q
            sh.E[n] += target - level_energy(l, sh, spec, sub)
            m.ok(abs(x.level.to('Hz').magnitude - target) <= tolerance(sh, spec), 'assigned',
                 lambda: f'{x.name}: {x.level.to("Hz").magnitude!r} after assigning {target!r}')
            m.seen('assign-' + ('level', 'hf', 'z')[len(sub)])
            for k in tied:
                # unspecified: adopt
                sh.E[k] = next(a for a, b in zip(levels, spec.levels) if b['name'] == k).level.to('Hz').magnitude
            if tied:
                m.seen('tied-edit')
                audit(rng, m, spec, levels, sh, ts, act)
                return
        elif act in ('sub-freq', 'top-freq') and ts:
            t, a, b = rng.choice(ts)
            p = frozenset((spec.levels[a]['name'], spec.levels[b]['name']))
            up, low = t.E_upper.name, t.E_lower.name
            if p not in sh.set and low in sh.group(up):
                continue                                     # would close a loop
            if sh.E[up] - sh.E[low] < far:
                continue
            subs = all_subs(t) if act == 'sub-freq' else [t]
            if not subs:
                continue
            s = rng.choice(subs)
            if act == 'sub-freq':
                top = {s.E_1.manifold.name, s.E_2.manifold.name}
                m.eq(top, {up, low}, 'sub-ends', s.name)
            now = s.freq.to('Hz').magnitude
            delta = rng.choice([lib.signed(rng, *steps), lib.signed(rng, *small), 0.0])
            q = quantity(rng, now + delta)
            target = q.to('Hz').magnitude
            old = {id(x): x.freq.to('Hz').magnitude for x in subs}
            m.op('set', s.name, target, str(q.units))
            if rng.random() < 0.5:
                s.freq = q
            else:
                s.set_frequency(q)
            sh.set[p] = (up, low, sh.E[up] - sh.E[low] + target - now)
            sh.enforce(up)
            tol = tolerance(sh, spec)
            m.ok(abs(s.freq.to('Hz').magnitude - target) <= tol, 'frequency-set',
                 lambda: f'{s.name}: {s.freq.to("Hz").magnitude!r} after setting {target!r}')
            for x in subs + [t]:
                d = x.freq.to('Hz').magnitude - old.get(id(x), x.freq.to('Hz').magnitude - (target - now))
                m.ok(abs(d - (target - now)) <= 4 * tol, 'siblings',
                     lambda: f'{x.name} moved by {d!r}, {s.name} by {target - now!r}')
            m.ok(t.set_freq is not None, 'parent-set', t.name)
            m.seen('set-' + ('top' if s is t else 'hf' if s.parent is t else 'z'))
            m.state(len(sh.group(up)), s is t, step)
        elif act == 'field':
            spec.B = rng.uniform(-1, 1) * step_B
            atom.B = spec.B * tk.G
            m.op('field', spec.B)
        elif act == 'hf':
            l['A'] = lib.signed(rng, 1e6, 1e10) * (1e-6 if fine else 1)
            e.hfA = l['A'] * tk.Hz
            m.op('hfA', l['name'], l['A'])
        audit(rng, m, spec, levels, sh, ts, act)


def fine(rng, m):
    m.seen('fine')
    live(rng, m, fine=True)


def overlap(rng, m):
    """levels closer to each other than their substructure: sublevels of the lower one lie above some of the upper one"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    spec = Spec(rng, nlev=(2, 3), I=[1, 2, 3, 5], Jmax=4, aliases=0, hf=1.0, B=0.6,
                energies=lambda r, i: 5e14 + i * r.uniform(1e9, 2e10))
    spec.B = max(-3e3, min(3e3, spec.B))
    for l in spec.levels:
        l['A'] = lib.signed(rng, 1e9, 1e10)
        l['Bq'], l['C'] = (max(-1e9, min(1e9, l[k])) for k in ('Bq', 'C'))
    atom, levels = spec.build(rng, m)
    pairs = [p for p in itertools.combinations(range(len(levels)), 2) if any(lib.pair_kinds(*(spec.levels[i] for i in p)))]
    rng.shuffle(pairs)
    ts, group = [], {i: {i} for i in range(len(levels))}
    for a, b in pairs:
        if a not in group[b]:                               # no loops
            g = group[a] | group[b]
            group.update({i: g for i in g})
            ts.append(atom.add_transition(Transition(*rng.sample([levels[a], levels[b]], 2))))
    if not ts:
        raise Skip
    hz = lambda q: q.to('Hz').magnitude                     # noqa: E731
    for step in range(rng.randint(3, 8)):
        if rng.random() < .25:
            i = rng.randrange(len(levels))
            levels[i].hfA = lib.signed(rng, 1e9, 1e10) * tk.Hz
            m.op('hfA', levels[i].name, hz(levels[i].hfA))
        t = rng.choice(ts)
        subs = all_subs(t)
        if not subs:
            continue
        s = rng.choice(subs)

        def signed(x):
            p, q = (x.E_1, x.E_2) if x.E_1.manifold is t.E_upper else (x.E_2, x.E_1)
            return p.level_Hz - q.level_Hz
        now, top, old = signed(s), signed(t), {id(x): signed(x) for x in subs}
        target = abs(now) + rng.choice([lib.signed(rng, 1e3, 1e9), rng.uniform(-1, 2) * abs(now), 0.0])
        delta = (target - abs(now)) * (1 if now > 0 else -1)
        # the order of either pair of levels stays what it is
        if target < 1e3 or abs(now) < 1e3 or min(top, top + delta) < 1e6:
            continue
        m.op('set', s.name, target, 'inverted' if now < 0 else '')
        gap = {id(x): x.freq_Hz for x in ts}
        low = min(e.level_Hz for e in levels)
        with lib.WarningLog() as log:
            if rng.random() < .5:
                s.freq = quantity(rng, target)
            else:
                s.set_frequency(quantity(rng, target))
        m.close(hz(s.freq), target, 'frequency-set', s.name, rel=1e-13, abs_=1.5)
        m.close(signed(t), top + delta, 'parent', s.name, rel=1e-13, abs_=2.0)
        m.ok(not log.texts, 'quiet', lambda: log.texts)
        for x in subs:
            m.close(signed(x) - old[id(x)], delta, 'siblings', (s.name, x.name), rel=1e-9, abs_=2.0)
        m.ok(min(e.level_Hz for e in levels) <= low + 2, 'lowest', 'the lowest level moved')
        for x in ts:
            if x is not t and x.set_freq is not None:
                m.close(x.freq_Hz, gap[id(x)], 'others', x.name, rel=1e-13, abs_=2.0)
        m.seen('overlap-' + ('inverted' if now < 0 else 'plain') + ('-z' if s.parent is not t else ''))
        if now < 0 and s.parent is not t:
            m.seen('inverted-in-' + ('inverted' if signed(s.parent) < 0 else 'plain'))
        m.state('overlap', now < 0, s.parent is t, step)


SCENARIOS = {'overlap': (250, 3000, overlap), 'live': (400, 5000, live), 'fine': (250, 2500, fine),
             'history': (300, 5000, history(['difference'], ('move', 'set-sub'), extra=('set-sub',) * 4 + ('new',) * 2 + ('move',) * 2))}
REQUIRED = {'overlap-inverted': 4, 'overlap-inverted-z': 60, 'overlap-plain-z': 100, 'fine': 150, 'assign-hf': 100, 'assign-z': 100, 'set-hf': 40, 'set-z': 150, 'check:siblings': 5000, 'tied-edit': 20,
            'set-sub': 150, 'set-sub-perturbed': 15, 'moved-tied': 60, 'history-difference': 3000, 'moved-hf': 100, 'moved-z': 100}
