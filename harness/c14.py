import itertools

import lib
import oracle as o
from engine import Skip
from lib import Fs, Ms, Spec, WarningLog, fk, mk
from machine import history

ID = 'C14'
RULE = ('Each case builds 3-9 levels and performs a random history of creating transitions with or without a set '
        'frequency, setting and re-setting frequencies in several units, removing transitions and moving unconnected '
        'levels; after every step all level energies, frequencies and warnings are compared with a shadow constraint '
        'graph.')
ASSUMPTIONS = ['Set frequencies are zero or positive; levels in a set group are not edited by hand (see C15 for edits).',
               'Which of two levels is the upper one is what the transition reports when its frequency is set.',
               'A loop is contradictory when its closure error exceeds 1e-7 of the frequency, consistent when it closes '
               'to float accuracy.']


def quantity(rng, hz):
    import atomtoolkit as tk
    u = rng.choice(['Hz', 'GHz', 'THz', 'cm^-1', 'nm', 'um', 'eV'])
    if u in ('nm', 'um'):
        return tk.Q_(o.C_LIGHT / hz * (1e9 if u == 'nm' else 1e6), u)
    f = {'Hz': 1, 'GHz': 1e9, 'THz': 1e12, 'cm^-1': o.C_LIGHT * 100, 'eV': o.E_CHARGE / o.H_PLANCK}[u]
    return tk.Q_(hz / f, u)


class Shadow:
    def __init__(self, E):
        self.E = E                      # name -> energy
        self.set = {}                   # frozenset of names -> (upper, lower, freq)

    def group(self, a):
        seen, todo = {a}, [a]
        while todo:
            x = todo.pop()
            for p in self.set:
                if x in p:
                    for y in p:
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
        return seen

    def edges(self, g):
        return [p for p in self.set if p <= g]

    def acyclic(self, g):
        return len(self.edges(g)) == len(g) - 1

    def enforce(self, a):
        g = self.group(a)
        root = min(g, key=lambda n: self.E[n])
        done, todo = {root}, [root]
        while todo:
            x = todo.pop()
            for p, (up, low, f) in self.set.items():
                if x in p:
                    y = low if up == x else up
                    if y not in done:
                        self.E[y] = self.E[x] + f if y == up else self.E[x] - f
                        done.add(y)
                        todo.append(y)
        return g, root

    def closure(self, g):
        """largest contradiction among the edges of a group after enforcing"""
        return max((abs(self.E[u] - self.E[l] - f) / f for p, (u, l, f) in self.set.items() if p <= g), default=0.0)


def audit(rng, m, atom, levels, spec, sh, what):
    scale = max(abs(v) for v in sh.E.values()) + max([f for *_, f in sh.set.values()] or [0]) + 1
    tol = 2e-14 * scale * len(levels) + 1e-3
    for e, l in zip(levels, spec.levels):
        m.ok(abs(e.level.to('Hz').magnitude - sh.E[l['name']]) <= tol, 'energy',
             lambda: f'{what}: {l["name"]} at {e.level.to("Hz").magnitude!r}, expected {sh.E[l["name"]]!r}')
    for p, (up, low, f) in sh.set.items():
        t = atom.transitions[up, low]
        m.ok(abs(t.freq.to('Hz').magnitude - f) <= tol, 'frequency',
             lambda: f'{what}: {t.name} at {t.freq.to("Hz").magnitude!r}, set to {f!r}')
        m.ok(t.set_freq is not None and abs(t.set_freq.to('Hz').magnitude - f) <= tol, 'set-freq', t.name)
    e, l = rng.choice(list(zip(levels, spec.levels)))
    F = rng.choice(Fs(spec.I, l['J']))
    M = rng.choice(Ms(F))
    z = e[fk(F)][mk(M)]
    want = sh.E[l['name']] + spec.hf_shift(l, F) + spec.z_shift(l, F, M)
    m.ok(abs(z.level.to('Hz').magnitude - want) <= tol + spec.tol(l) + 3e-9 * abs(spec.z_shift(l, F, M)), 'sublevel',
         lambda: f'{what}: {z.name} at {z.level}, expected {want!r}')


def live(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    def energy(r, i):
        return r.choice([r.uniform(0, 1e15), r.uniform(-1e14, 1e14), r.uniform(0, 1e12)])
    spec = Spec(rng, nlev=(3, 9), I=[0, 0, 1, 2, 3], Jmax=5, aliases=0.3, hf=0.5, B=0.5, energies=energy)
    atom, levels = spec.build(rng, m)
    by = {l['name']: e for e, l in zip(levels, spec.levels)}
    sh = Shadow({l['name']: l['E'] for l in spec.levels})
    names = list(by)
    pairs = [p for p in itertools.combinations(names, 2)]
    exist = {}
    loops = rng.random() < 0.35
    for step in range(rng.randint(5, 14)):
        act = rng.choice(['new', 'new', 'new-set', 'new-set', 'set', 'set', 'set', 'set', 'remove', 'move', 'field'])
        p = None
        if act == 'move':
            free = [n for n in names if len(sh.group(n)) == 1]
            if free:
                n = rng.choice(free)
                sh.E[n] = energy(rng, 0)
                by[n].level = sh.E[n] * tk.Hz
                m.op('move', n, sh.E[n])
                audit(rng, m, atom, levels, spec, sh, 'move')
            continue
        if act == 'field':
            spec.B = rng.uniform(-1e3, 1e3)
            atom.B = spec.B * tk.G
            continue
        if act == 'remove':
            if exist and rng.random() < 0.5:
                q = rng.choice(list(exist))
                a, b = tuple(q)
                del atom.transitions[(a, b)]
                del exist[q]
                sh.set.pop(q, None)
                m.op('remove', a, b)
                audit(rng, m, atom, levels, spec, sh, 'remove')
            continue
        if act.startswith('new'):
            left = [q for q in pairs if frozenset(q) not in exist]
            if not left:
                continue
            a, b = rng.choice(left)
        else:
            if not exist:
                continue
            a, b = rng.choice([tuple(q) for q in exist])
        if rng.random() < 0.5:
            a, b = b, a
        p = frozenset((a, b))
        setting = act in ('new-set', 'set')
        closes = setting and p not in sh.set and b in sh.group(a)
        if closes and not loops:
            continue
        if abs(sh.E[a] - sh.E[b]) < 1e6:
            continue
        now = abs(sh.E[a] - sh.E[b])
        consistent = False
        if setting:
            if closes or not sh.acyclic(sh.group(a)):
                consistent = rng.random() < 0.5
                f = now if consistent else now * rng.choice([1.01, 0.9, 1 + 1e-4, 3])
            else:
                f = rng.choice([now * rng.uniform(0.5, 2), now + rng.uniform(0, 1e9), lib.logu(rng, 1e9, 1e15), now])
            q = quantity(rng, f)
            f = q.to('Hz').magnitude
        with WarningLog() as w:
            if act == 'new':
                t = rng.choice([lambda: atom.add_transition(Transition(by[a], by[b])),
                                lambda: atom.add_transition((a, b))])()
                exist[p] = t
                m.op('new', a, b)
            else:
                if act == 'new-set':
                    up, low = (a, b) if sh.E[a] > sh.E[b] else (b, a)
                else:
                    t = atom.transitions[a, b]
                    up, low = t.E_upper.name, t.E_lower.name
                    m.eq({up, low}, {a, b}, 'ends', '')
                m.op(act, up, low, f, str(q.units))
                if consistent and sh.E[up] < sh.E[low]:
                    consistent = False
                sh.set[p] = (up, low, f)
                before = dict(sh.E)
                group, root = sh.enforce(a)
                if act == 'new-set':
                    t = rng.choice([lambda: atom.add_transition(Transition(by[a], by[b], freq=q)),
                                    lambda: atom.add_transition((a, b), freq=q),
                                    lambda: atom.add_transition((by[a], by[b]), freq=q)])()
                    exist[p] = t
                elif rng.random() < 0.5:
                    t.freq = q
                else:
                    t.set_frequency(q)
                m.seen('set')
                m.ok(sh.E[root] == before[root], 'shadow', 'anchor moved')
                m.state(len(group), len(sh.edges(group)), root == a, root == b)
        if setting and not sh.acyclic(group):
            err = sh.closure(group)
            if err > 1e-7:
                m.ok(len(w.texts) > 0, 'loop-warned', lambda: f'no warning; sets {sh.set}, energies {before}')
                m.seen('contradictory-loop')
                for n in set(names) - group:
                    m.ok(abs(by[n].level_Hz - sh.E[n]) <= 1e-13 * abs(sh.E[n]) + 1e-3, 'unconnected',
                         lambda: f'{n} moved by a loop elsewhere')
                return
            elif err < 1e-12:
                m.ok(not w.texts, 'consistent-loop-quiet', lambda: f'warned {w.texts} on {sh.set}, err {err}')
                m.seen('consistent-loop')
            else:
                return
        else:
            m.ok(not w.texts, 'quiet', lambda: f'{act}: {w.texts}')
        audit(rng, m, atom, levels, spec, sh, act)


def loops(rng, m):
    """a closed loop of set transitions: consistent -> silent, contradictory -> warned"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    n = rng.choice([3, 4, 5, 6, rng.randint(7, 12)])
    spec = Spec(rng, nlev=(n, n), I=[0, 1, 2], Jmax=4, aliases=0.0, hf=0.3, B=0.3,
                energies=lambda r, i: (i + r.uniform(0.1, 0.9)) * lib.logu(r, 1e13, 1e14))
    atom, levels = spec.build(rng, m)
    k = rng.randint(3, n)
    ring = rng.sample(range(n), k)
    edges = [(ring[i], ring[(i + 1) % k]) for i in range(k)]
    rng.shuffle(edges)
    extra = [(rng.choice(ring), j) for j in range(n) if j not in ring]
    E = [l['E'] for l in spec.levels]
    # a consistent target: every level shifted, lowest kept
    lowest = min(range(n), key=lambda i: E[i])
    T = [e if i == lowest else e * (1 + rng.uniform(0, 1e-3)) for i, e in enumerate(E)]
    bad = rng.random() < 0.5
    order = sorted(range(n), key=lambda i: T[i])
    if order != sorted(range(n), key=lambda i: E[i]) or min(abs(T[a] - T[b]) for a in range(n) for b in range(a)) < 1e10:
        raise Skip
    m.op('loop', ring, bad, T)
    warned, last = [], None
    for idx, (a, b) in enumerate(edges + extra):
        f = abs(T[a] - T[b])
        final = idx == len(edges) - 1
        if final and bad:
            f *= rng.choice([1 + 1e-5, 1.001, 0.99])
        with WarningLog() as w:
            if rng.random() < 0.5:
                t = atom.add_transition(Transition(levels[a], levels[b], freq=quantity(rng, f)))
            else:
                t = atom.add_transition((levels[b].name, levels[a].name))
                t.freq = quantity(rng, f)
        last = t
        if final and bad:
            m.ok(len(w.texts) > 0, 'loop-warned', lambda: f'ring {ring}, targets {T}')
            m.seen('contradictory-loop')
            with WarningLog() as w2:
                t.freq = quantity(rng, f * 1.0003)
            m.ok(len(w2.texts) > 0, 'loop-warned', lambda: f're-set: ring {ring}, targets {T}')
            return
        m.ok(not w.texts, 'quiet', lambda: f'edge {a, b} of {edges}: {w.texts}')
    if not bad:
        m.seen('consistent-loop')
        low = min(ring, key=lambda i: T[i])
        for i in range(n):
            connected = True
            shift = E[low] - T[low] if lowest not in ring and not extra else 0.0
        # frequencies are the claim; absolute positions follow from the group's lowest level
        for a, b in edges + extra:
            t = atom.transitions[levels[a], levels[b]]
            m.ok(abs(t.freq_Hz - abs(T[a] - T[b])) < 5.0, 'loop-frequency', lambda: f'{t.name}: {t.freq_Hz}')
        # breaking it is noticed, mending it silences the library again
        f = abs(T[edges[0][0]] - T[edges[0][1]])
        t = atom.transitions[levels[edges[0][0]], levels[edges[0][1]]]
        with WarningLog() as w:
            t.freq = quantity(rng, f * 1.0001)
        m.ok(len(w.texts) > 0, 'loop-warned', lambda: f'breaking ring {ring}')
        m.seen('contradictory-loop')
        with WarningLog() as w:
            t.freq = quantity(rng, f)
        m.ok(not w.texts, 'mended-quiet', lambda: f'{w.texts}')
        for a, b in edges + extra:
            t = atom.transitions[levels[a], levels[b]]
            m.ok(abs(t.freq_Hz - abs(T[a] - T[b])) < 5.0, 'mended-frequency', lambda: f'{t.name}: {t.freq_Hz}')


def long(rng, m):
    """many levels tied to each other: chains, stars and trees, completed in any order"""
    import atomtoolkit as tk
    from atomtoolkit.atom import Transition
    n = rng.randint(8, 28)
    spec = Spec(rng, nlev=(n, n), I=[0, 1], J=[1, 3], aliases=0.2, hf=0.1, B=0.2, energies=lambda r, i: i * 2e12 + r.uniform(0, 1e12))
    atom, levels = spec.build(rng, m)
    shape = rng.choice(['chain', 'chain', 'zigzag', 'star', 'tree', 'two'])
    idx = sorted(range(n), key=lambda i: spec.levels[i]['E'])
    if shape == 'zigzag':
        rng.shuffle(idx)
    par = {'chain': lambda i: i - 1, 'zigzag': lambda i: i - 1, 'star': lambda i: 0, 'tree': lambda i: rng.randrange(i),
           'two': lambda i: max(0, i - 2)}[shape]
    edges = [(idx[i], idx[par(i)]) for i in range(1, n)]
    if rng.random() < .7:
        rng.shuffle(edges)
    if rng.random() < .3:
        edges = edges[:rng.randint(1, len(edges))]          # several groups
    sh = Shadow({l['name']: l['E'] for l in spec.levels})
    names = [l['name'] for l in spec.levels]
    late = rng.random() < .5

    def tie(a, b, t, again=False):
        up, low = sorted((names[a], names[b]), key=lambda x: -sh.E[x])
        f = sh.E[up] - sh.E[low] + lib.signed(rng, 1e3, 1e9)
        with WarningLog() as w:
            if t is not None:
                t.freq = quantity(rng, f)
            else:
                atom.add_transition(Transition(*rng.sample([levels[a], levels[b]], 2), freq=quantity(rng, f)))
        sh.set[frozenset((up, low))] = (up, low, f)
        sh.enforce(up)
        m.op('tie', up, low, f)
        m.ok(not w.texts, 'quiet', lambda: f'{shape} of {n}: {w.texts}')
    ts = {}
    if late:
        for a, b in edges:
            ts[a, b] = atom.add_transition(Transition(levels[a], levels[b]))
    for k, (a, b) in enumerate(edges):
        tie(a, b, ts.get((a, b)))
        if rng.random() < .1 or k == len(edges) - 1:
            audit(rng, m, atom, levels, spec, sh, shape)
    for _ in range(3):
        a, b = rng.choice(edges)
        tie(a, b, atom.transitions[names[a], names[b]])
        audit(rng, m, atom, levels, spec, sh, shape + ' again')
    m.seen('long-' + shape)
    m.state(shape, n, len(edges), late)


SCENARIOS = {'long': (80, 1000, long), 'live': (600, 8000, live), 'loops': (160, 2000, loops),
             'history': (300, 5000, history([], ('set', 'new-set', 'new', 'remove-t'), extra=('set',) * 4 + ('new',) * 2))}
REQUIRED = {'long-chain': 10, 'long-tree': 5, 'set': 1000, 'contradictory-loop': 60, 'consistent-loop': 30, 'remove': 50, 'move': 100,
            'check:mended-quiet': 30, 'check:quiet': 1000,
            'enforced': 400, 'set-zero': 20, 'set-again': 80, 'op-move': 150}
