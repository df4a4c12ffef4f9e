import itertools
import os
import random
import shutil

import elsewhere
import lib
import oracle as o
from engine import Skip
from lib import Fs, Ms, Spec, fk, mk, num

ID = 'C17'
RULE = ('Each case draws one script of building and editing steps and runs it on several atoms: one never looked at '
        'until the end, one populated eagerly, and some with random reads interleaved; complete snapshots of all answers '
        'are then compared, and objects seen earlier must still be the ones returned; the same is done in other processes with '
        'other string hashes.')
ASSUMPTIONS = ['Edits keep the order in energy of levels that are joined (the upper level of a transition is decided '
               'when it is created).',
               'Sub-transitions within one level are compared as unordered pairs.']


def script(rng, spec):
    """a list of edit steps; the state it needs (which transitions exist) is tracked here"""
    n = len(spec.levels)
    steps, pairs, present = [], [], set()
    removed = []
    free = [(i, j) for i in range(n) for j in range(i, n)
            if any(lib.pair_kinds(spec.levels[i], spec.levels[j]))]
    rng.shuffle(free)
    order = list(range(n))
    rng.shuffle(order)
    for i in order:
        steps.append(('level', i, rng.choice([None, None, f'al{i}'])))
        present.add(i)
        while free and rng.random() < 0.6:
            p = next((p for p in free if p[0] in present and p[1] in present), None)
            if not p:
                break
            free.remove(p)
            pairs.append(p)
            a, b = p if rng.random() < 0.5 else p[::-1]
            steps.append(('transition', a, b, rng.choice([None, lib.logu(rng, 1, 1e8)]), rng.choice([None, f't{a}{b}'])))
    for _ in range(rng.randint(4, 10)):
        i = rng.randrange(n)
        l = spec.levels[i]
        F = rng.choice(Fs(spec.I, l['J']))
        M = rng.choice(Ms(F))
        k = rng.choice(['hf', 'hf', 'lande', 'B', 'B', 'E', 'A', 'A', 'sub-level', 'quad', 'set', 'set-sub', 'remove',
                        'alias', 'readd', 'gF', 'readd-level', 'alias-t', 'alias-sub', 'internal', 'populate'])
        if k == 'hf':
            steps.append((k, i, rng.choice('ABC'), lib.signed(rng, 1e5, 1e9)))
        elif k == 'lande':
            steps.append((k, i, lib.signed(rng, .1, 3)))
        elif k == 'B':
            steps.append((k, lib.signed(rng, 1e-2, 1e3, .1)))
        elif k == 'E':
            steps.append((k, i, lib.signed(rng, 1e3, 1e11)))
        elif k == 'sub-level':
            steps.append((k, i, F, rng.choice([None, M]), lib.signed(rng, 1e3, 1e11)))
        elif k == 'quad':
            steps.append((k, i, F, M, lib.signed(rng, .1, 100)))
        elif k == 'gF':
            steps.append((k, i, F, lib.signed(rng, .1, 3)))
        elif k == 'alias':
            steps.append((k, i, rng.choice([None, F]), f'x{rng.randrange(5)}'))
        elif k == 'readd-level':
            steps.append((k, i))
        elif k == 'internal':
            new = [(j, j) for j in range(n) if any(lib.pair_kinds(spec.levels[j], spec.levels[j]))]
            if len(new) == n:       # otherwise some level has no transition with itself
                pairs += [p for p in new if p not in pairs]
                steps.append((k,))
        elif k == 'populate':
            kinds = tuple(rng.random() < .5 for _ in range(3))
            for p in itertools.combinations(range(n), 2):
                if p not in pairs and any(x and y for x, y in zip(lib.pair_kinds(*(spec.levels[q] for q in p)), kinds)):
                    pairs.append(p)
            steps.append((k, kinds))
        elif pairs:
            p = rng.choice(pairs)
            if k == 'alias-t':
                steps.append((k, *p, f'y{rng.randrange(5)}'))
            elif k == 'alias-sub':
                steps.append((k, *p, rng.random(), rng.choice([None, rng.random()]), f'y{rng.randrange(5)}'))
            elif k == 'A':
                steps.append((k, *p, rng.choice([None, lib.logu(rng, 1, 1e8), lib.logu(rng, 1, 1e8)])))
            elif k == 'readd':
                steps.append((k, *p))
            elif p[0] != p[1] and k in ('set', 'set-sub'):
                # a single set transition: no loops
                if not any(s[0] in ('set', 'set-sub') for s in steps):
                    hp, lead = lib.hf_pairs(spec.I, spec.levels[p[0]], spec.levels[p[1]])
                    ok = [f for f, rs in hp.items() if lead in rs]
                    if k == 'set' or not ok:
                        steps.append(('set', *p, lib.signed(rng, 1e3, 1e11)))
                    else:
                        steps.append(('set-sub', *p, *rng.choice(ok), lib.signed(rng, 1e3, 1e11)))
            elif k == 'remove' and rng.random() < 0.4:
                pairs.remove(p)
                steps.append((k, *p))
    return steps


class Run:
    def __init__(self, rng, spec, seed):
        import atomtoolkit as tk
        from atomtoolkit.atom import Atom
        self.tk, self.spec = tk, spec
        self.atom = Atom('X', I=spec.I / 2, B=spec.B * tk.G)
        self.levels = [Spec.level(rng, l) for l in spec.levels]
        self.seen = {}

    def pick(self, t, x):
        subs = sorted(t.values(), key=lambda s: sorted((s.E_1.name, s.E_2.name)))
        return subs[int(x * len(subs))] if subs else None

    def t(self, i, j):
        return self.atom.transitions[self.levels[i].name, self.levels[j].name]

    def step(self, s):
        from atomtoolkit.atom import Transition
        tk, a, k = self.tk, self.atom, s[0]
        if k == 'level':
            a.add_level(self.levels[s[1]], alias=s[2])
        elif k == 'transition':
            t = a.add_transition(Transition(self.levels[s[1]], self.levels[s[2]],
                                            A=None if s[3] is None else s[3] * tk.Hz))
            if s[4]:
                t.alias = s[4]
        elif k == 'hf':
            setattr(self.levels[s[1]], 'hf' + s[2], s[3] * tk.Hz)
        elif k == 'lande':
            self.levels[s[1]].lande = s[2]
        elif k == 'B':
            a.B = s[1] * tk.G
        elif k == 'E':
            e = self.levels[s[1]]
            e.level = e.level + s[2] * tk.Hz
        elif k == 'sub-level':
            e = self.levels[s[1]][fk(s[2])]
            e = e if s[3] is None else e[mk(s[3])]
            e.level = e.level + s[4] * tk.Hz
        elif k == 'quad':
            self.levels[s[1]][fk(s[2])][mk(s[3])].quadratic_zeeman = s[4]
        elif k == 'gF':
            self.levels[s[1]][fk(s[2])].gF = s[3]
        elif k == 'alias':
            e = self.levels[s[1]]
            (e if s[2] is None else e[fk(s[2])]).alias = s[3]
        elif k == 'A':
            self.t(s[1], s[2]).A = None if s[3] is None else s[3] * tk.Hz
        elif k == 'readd-level':
            a.add_level(self.levels[s[1]])
        elif k == 'internal':
            a.populate_internal_transitions()
        elif k == 'populate':
            a.populate_transitions(s[1])
        elif k == 'alias-t':
            self.t(s[1], s[2]).alias = s[3]
        elif k == 'alias-sub':
            t = self.pick(self.t(s[1], s[2]), s[3])
            if t is not None and s[4] is not None:
                t = self.pick(t, s[4])
            if t is not None:
                t.alias = s[5]
        elif k == 'readd':
            a.add_transition(self.t(s[1], s[2]))
        elif k == 'set':
            t = self.t(s[1], s[2])
            t.freq = t.freq + s[3] * tk.Hz
        elif k == 'set-sub':
            t = a.transitions[f'{self.levels[s[1]].name} {fk(s[3])}', f'{self.levels[s[2]].name} {fk(s[4])}']
            t.freq = t.freq + s[5] * tk.Hz
        elif k == 'remove':
            del a.transitions[self.levels[s[1]].name, self.levels[s[2]].name]
        else:
            raise AssertionError(k)

    def eager(self):
        for e in self.atom.levels.values():
            for h in e.values():
                h.sublevels()
        for t in list(self.atom.transitions.values()):
            for s in list(t.values()):
                s.subtransitions()

    def energies(self):
        return [e.level_Hz for e in self.atom.levels.values()]

    def read(self, rng, m):
        from atomtoolkit import IO
        from c19 import scratch
        a = self.atom
        before = self.energies()
        kinds = ['repr', 'sub', 'zsub', 'lookup', 'tsub', 'tzsub', 'tlookup', 'ratios', 'lifetime', 'listing', 'len',
                 'level', 'misslookup', 'linked', 'save', 'csv', 'contains']
        lv = list(a.levels.values())
        ts = list(a.transitions.values())
        for _ in range(rng.randint(1, 5)):
            k = rng.choice(kinds)
            m.seen('read-' + k)
            if lv:
                e = rng.choice(lv)
            if ts:
                t = rng.choice(ts)
            if k == 'repr' and lv:
                repr(a), repr(e), str(e), repr(a.levels), ts and (repr(t), str(t), repr(a.transitions))
            elif k == 'sub' and lv:
                self.note(m, e.sublevels())
            elif k == 'zsub' and lv:
                self.note(m, rng.choice(e.sublevels()).sublevels())
            elif k == 'lookup' and lv:
                h = rng.choice(list(e.keys()))
                z = rng.choice(list(e[h].keys()))
                self.note(m, [a.levels[f'{e.name} {h}'], a.levels[f'{e.name} {h} {z}']])
            elif k == 'tsub' and ts:
                self.note(m, t.subtransitions())
            elif k == 'tzsub' and ts:
                subs = list(t.values())
                if subs:
                    self.note(m, rng.choice(subs).subtransitions())
            elif k == 'tlookup' and ts:
                h0, h1 = rng.choice(list(t.E_1.keys())), rng.choice(list(t.E_2.keys()))
                try:
                    self.note(m, [a.transitions[f'{t.E_1.name} {h0}', f'{t.E_2.name} {h1}']])
                except KeyError:
                    pass
            elif k == 'ratios' and lv:
                for x in (e, e.sublevels()[0]):
                    try:
                        a.compute_branching_ratios(x.name)
                    except ValueError:
                        pass
            elif k == 'lifetime' and lv:
                try:
                    a.state_lifetime(e.name)
                except TypeError:
                    pass                    # a decay without A
            elif k == 'linked' and lv:
                a.linked_levels(e.name)
                a.linked_levels(e.sublevels()[-1].name)
            elif k == 'listing':
                list(a.levels), list(a.transitions), a.levels.list_names(), a.transitions.list_names()
            elif k == 'len' and lv:
                len(e), ts and len(t), list(e), ts and list(t)
            elif k == 'level' and lv:
                h = rng.choice(e.sublevels())
                h.level, h.shift, h.gF, rng.choice(h.sublevels()).level
            elif k == 'save' or k == 'csv' and lv:
                d = scratch()
                try:
                    if k == 'save':
                        a.save(os.path.join(d, 'a'))
                    else:
                        IO.generate_hf_csv(a, os.path.join(d, 'a.csv'))
                finally:
                    shutil.rmtree(d)
            elif k == 'contains' and lv:
                e.name in a.levels, 'nope' in a.levels, e.sublevels()[0].name in a.levels
                'F=1' in e, a.levels.aliases, a.transitions.aliases
            elif k == 'misslookup':
                for key in (('nope', 'nada'), (0, 0)):
                    try:
                        a.transitions[key]
                    except LookupError:
                        pass
        m.ok(self.energies() == before, 'reads-keep-energies', lambda: f'{before} -> {self.energies()}')

    def note(self, m, objs):
        for x in objs:
            k = (type(x).__name__, tuple(sorted((x.E_1.name, x.E_2.name))) if hasattr(x, 'E_1') else x.name,
                 id(getattr(x, 'parent', None)))
            m.ok(self.seen.setdefault(k, x) is x, 'same-object', lambda: f'{k} came back as another object')

    def snapshot(self, order):
        """all answers, collected in one of several orders"""
        a, out = self.atom, {}
        parts = ['levels', 'transitions', 'lookup', 'rates', 'sizes']
        self.rng = random.Random(order)
        self.rng.shuffle(parts)
        for p in parts:
            out.update(getattr(self, 's_' + p)())
        return out

    def count(self, x):
        ways = [len, lambda x: len(list(x)), lambda x: len(x.keys()), lambda x: len(x.values()), lambda x: len(x.items()),
                lambda x: len(x.sublevels() if hasattr(x, 'sublevels') else x.subtransitions())]
        return self.rng.choice(ways)(x)

    def s_sizes(self):
        """how many sublevels and sub-transitions there are, whichever way they are first asked for"""
        a, out = self.atom, {}
        for e in list(a.levels.values()):
            out['n', e.name] = self.count(e)
            for h in e.sublevels():
                out['n', h.name] = self.count(h)
        for t in list(a.transitions.values()):
            out['n', tuple(sorted((t.E_1.name, t.E_2.name)))] = self.count(t)
            for s in t.subtransitions():
                out['n', tuple(sorted((s.E_1.name, s.E_2.name)))] = self.count(s)
        return out

    def s_levels(self):
        a, out = self.atom, {}
        out['names'] = sorted(a.levels.keys())
        out['aliases'] = sorted((k, x.name) for k, x in a.levels.aliases.items())
        for e in a.levels.values():
            out['E', e.name] = (e.level_Hz, e.lande, e.alias, sorted(e.keys()))
            for h in e.values():
                out['H', h.name] = (h.level_Hz, h.shift_Hz, h.gF, sorted(h.keys()), h.alias)
                for z in h.values():
                    out['Z', z.name] = (z.level_Hz, z.shift_Hz, z.gF, z.quadratic_zeeman)
        return out

    def s_transitions(self):
        a, out = self.atom, {}
        out['tnames'] = sorted(map(sorted, a.transitions.keys()))
        out['taliases'] = sorted((k, x.name) for k, x in a.transitions.aliases.items())

        def one(t):
            A = None if t.A is None else t.A.to('Hz').magnitude
            return (t.freq_Hz, A, float(t.rel_strength), tuple(map(bool, t.allowed_types)), t.alias,
                    None if t.set_freq is None else t.set_freq.to('Hz').magnitude)

        def keys(t, inside):
            return sorted(tuple(sorted(k)) if inside else tuple(k) for k in t.keys())
        for t in a.transitions.values():
            inside = t.E_1 is t.E_2
            ends = tuple(sorted((t.E_1.name, t.E_2.name)))
            out['T', ends] = one(t) + (t.E_upper.name, t.E_lower.name, keys(t, inside))
            for s in t.values():
                se = tuple(sorted((s.E_1.name, s.E_2.name)))
                out['TH', se] = one(s) + (keys(s, inside),)
                for z in s.values():
                    out['TZ', tuple(sorted((z.E_1.name, z.E_2.name)))] = one(z)
        return out

    def s_lookup(self):
        a, out = self.atom, {}
        lv = self.levels[:3]
        for x, y in itertools.combinations_with_replacement(lv, 2):
            if x.name not in a.levels.keys() or y.name not in a.levels.keys():
                continue
            for h, g in itertools.product(list(x.keys())[:3], list(y.keys())[:3]):
                pairs = [(f'{x.name} {h}', f'{y.name} {g}')]
                pairs.append((f'{x.name} {h} {list(x[h].keys())[0]}', f'{y.name} {g} {list(y[g].keys())[-1]}'))
                for k in pairs:
                    try:
                        t = a.transitions[k]
                        out['L', k] = {t.E_1.name, t.E_2.name}
                    except KeyError:
                        out['L', k] = None
        return out

    def s_rates(self):
        a, out = self.atom, {}
        for e in list(a.levels.values()):
            for x in [e] + e.sublevels()[:2] + e.sublevels()[0].sublevels()[:2]:
                try:
                    out['B', x.name] = a.compute_branching_ratios(x.name)
                except ValueError as err:
                    out['B', x.name] = 'no A'
                out['K', x.name] = sorted(a.linked_levels(x.name))
                try:
                    out['L', x.name] = a.state_lifetime(x.name).to('s').magnitude
                except TypeError:
                    out['L', x.name] = 'no A'
        return out


def equal(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return x == y or abs(x - y) < float('inf') and abs(x - y) <= 1e-12 * max(abs(x), abs(y)) + 1e-3 * (max(abs(x), abs(y)) > 1e6) or x != x and y != y
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        return len(x) == len(y) and all(map(equal, x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return x.keys() == y.keys() and all(equal(x[k], y[k]) for k in x)
    try:
        return bool(x == y) or abs(float(x) - float(y)) < float('inf') and abs(float(x) - float(y)) <= 1e-12 * max(abs(x), abs(y)) + 1e-3 * (abs(x) > 1e6)
    except (TypeError, ValueError):
        return False


def plan(rng):
    spec = Spec(rng, nlev=(2, 4), I=[0, 1, 2, 3], Jmax=4, aliases=0.0, hf=0.7, B=0.6,
                energies=lambda r, i: (i + 1) * 1.5e14 + r.uniform(0, 5e13))
    rng.shuffle(spec.levels)
    for l in spec.levels:
        for k in ('A', 'Bq', 'C'):
            l[k] = max(-1e9, min(1e9, l[k]))
    spec.B = max(-1e3, min(1e3, spec.B))
    return spec, script(rng, spec)


def twin(rng, m):
    spec, st = plan(rng)
    m.op('script', spec.I, [l['name'] for l in spec.levels], st)
    snaps = []
    for mode in ('blind', 'eager', 'read', 'read2'):
        run = Run(rng, spec, mode)
        for s in st:
            try:
                run.step(s)
            except KeyError as e:
                # a pair that does not exist must not exist in any of the runs
                m.ok(False, 'step', lambda: f'{mode}: {s}: {e!r}')
            if mode == 'eager':
                run.eager()
            elif mode.startswith('read') and rng.random() < 0.7:
                run.read(rng, m)
        old = dict(run.seen)
        snaps.append((mode, run.snapshot(rng.randrange(10 ** 6)), run))
        again = run.snapshot(rng.randrange(10 ** 6))
        diff = [k for k in again if not equal(again[k], snaps[-1][1].get(k))]
        m.ok(not diff and again.keys() == snaps[-1][1].keys(), 'repeatable',
             lambda: f'{mode}: {[(k, snaps[-1][1].get(k), again[k]) for k in diff[:2]]}')
        # what was seen before is what is there now
        alive = {id(x) for e in run.atom.levels.values() for h in e.values() for x in [e, h] + h.sublevels()}
        for k, x in old.items():
            if hasattr(x, 'E_1'):
                continue
            m.ok(id(x) in alive, 'stable-object', lambda: f'{mode}: {k} was replaced')
            m.seen('stable')
    base = snaps[0][1]
    for mode, s, _ in snaps[1:]:
        m.ok(s.keys() == base.keys(), 'same-answers-exist',
             lambda: f'{mode}: {list(set(map(str, s)) ^ set(map(str, base)))[:4]}')
        diff = [k for k in base if not equal(base[k], s[k])]
        m.ok(not diff, 'same-answers', lambda: f'{mode}: {[(k, base[k], s[k]) for k in diff[:2]]}')
        m.seen('compared', len(base))
    m.state(tuple(s[0] for s in st))


def process(rng, m):
    """the same scripts, in this process and in another one that hashes strings in another way"""
    from c19 import scratch
    jobs = [('build', (rng.randrange(10 ** 9), rng.choice(['blind', 'eager', 'read']))) for _ in range(6)]
    m.op('jobs', jobs)
    d = scratch()
    try:
        there = elsewhere.ask(d, jobs, rng.randrange(1, 10 ** 6), d)
    finally:
        shutil.rmtree(d)
    m.ok(isinstance(there, list), 'elsewhere', there)
    for (_, (seed, mode)), s in zip(jobs, there):
        for other in {'blind', mode}:
            here = elsewhere.build(seed, other)
            m.ok(s.keys() == here.keys(), 'elsewhere',
                 lambda: f'{mode}/{other}: {list(set(map(str, s)) ^ set(map(str, here)))[:4]}')
            diff = [k for k in here if not equal(here[k], s[k])]
            m.ok(not diff, 'elsewhere', lambda: f'{mode}/{other}: {[(k, here[k], s[k]) for k in diff[:2]]}')
            m.seen('compared-elsewhere', len(here))


SCENARIOS = {'twin': (240, 2400, twin), 'process': (12, 100, process)}
REQUIRED = {'compared-elsewhere': 5000, 'compared': 50000, 'stable': 500, 'check:same-object': 1000, 'check:reads-keep-energies': 1000,
            'read-tzsub': 100, 'read-ratios': 100, 'read-linked': 100}
