"""
A random-history machine shared by the stateful properties: one atom, a shadow of everything it was told, and monitors
that compare the two after every operation.  Each property switches on its own monitors (`aspects`), so that a violation
is attributed to the property whose statement it contradicts.  Energies are re-read from the atom after each verified
step, so expectations are always relative to the present state, never to an accumulated simulation.
"""
import itertools
import os
import shutil
import tempfile

import lib
import oracle as o
from engine import Skip, Violation
from lib import Fs, Ms, Spec, dbl, fk, frac, hf_pairs, mk, must, num, z_pairs

ODD = ['clock F=1', 'mF=0 state', 'mJ=1/2', 'F=2', 'a b c', 'S1/2', 'α→β', ' F=1', 'the F=0 mF=0', '0', "x'", 'mF=']
HOLD = object()                     # an energy that is not predicted


def quantity(rng, hz):
    import atomtoolkit as tk
    u = rng.choice(['Hz', 'GHz', 'THz', 'cm^-1', 'nm', 'eV'])
    if u == 'nm' and hz:
        return tk.Q_(o.C_LIGHT / hz * 1e9, u)
    f = {'Hz': 1, 'nm': 1, 'GHz': 1e9, 'THz': 1e12, 'cm^-1': o.C_LIGHT * 100, 'eV': o.E_CHARGE / o.H_PLANCK}[u]
    return tk.Q_(hz / f, 'Hz' if u == 'nm' else u)


def ranks(energies, x):
    """the integers that name x by its place in energy, if no other level is close"""
    mine = [e for y, e in energies if y is x]
    if len(mine) != 1 or any(abs(e - mine[0]) < 1e6 for y, e in energies if y is not x):
        return []
    k = sum(bool(e < mine[0]) for _, e in energies)
    return [k, k - len(energies)]


class Rec:
    """what is known about a transition in the atom"""

    def __init__(self, t, ends, A, setf):
        self.t, self.ends, self.A, self.setf = t, ends, A, setf


class World:
    def __init__(self, rng, m, aspects, cats=(), ops=None, nlev=(2, 5), apart=None, Jmax=4, spec=None):
        from atomtoolkit.atom import Atom
        import atomtoolkit as tk
        self.tk, self.rng, self.m, self.aspects, self.cats = tk, rng, m, aspects, set(cats)
        self.apart = rng.random() < 0.6 if apart is None else apart
        if self.apart:
            es = lambda r, i: i * 2e14 + r.uniform(0, 1e14) - 1e14
        else:
            es = rng.choice(['spread', 'close', lambda r, i: r.uniform(-1e13, 1e13)])
        self.spec = spec
        if spec is None:
            self.spec = Spec(rng, nlev=nlev, I=[0, 1, 1, 2, 3], Jmax=Jmax, aliases=0.0, hf=0.7, B=0.7, energies=es)
            rng.shuffle(self.spec.levels)
        for i, l in enumerate(self.spec.levels):
            l['idx'] = i
            for k in ('A', 'Bq', 'C'):
                l[k] = max(-1e10, min(1e10, l[k]))
        self.spec.B = max(-2e3, min(2e3, self.spec.B))
        self.L = self.spec.levels
        self.n = len(self.L)
        self.lv = [Spec.level(rng, l) for l in self.L]
        self.atom = Atom('X', I=num(rng, self.spec.I), B=self.spec.B * tk.G)
        self.present, self.tr, self.lal, self.tal, self.quad = set(), {}, {}, {}, {}
        self.pairs = [frozenset(p) for p in itertools.combinations_with_replacement(range(self.n), 2)
                      if any(lib.pair_kinds(self.L[p[0]], self.L[p[1]]))]
        self.serial = itertools.count()
        self.want, self.mag, self.when, self.crossed = {}, 0.0, None, False
        self.ops = ops or ['level', 'new', 'new', 'move', 'move', 'const', 'field', 'set', 'set', 'set-sub', 'A', 'alias',
                           'alias', 'talias', 'remove-t', 'remove-l', 'replace-t', 'replace-l', 'foreign', 'ghost', 'look', 'look', 'saveload']
        self.old, self.ghosts, self.dead = {}, [], set()
        m.op('world', self.spec.I, self.spec.B, [(l['name'], l['E'], l['A'], l['lande']) for l in self.L])

    # --- shadow ------------------------------------------------------------------------------------------------------
    def E(self, i):
        return self.L[i]['E']

    def obj(self, i, sub=()):
        e = self.lv[i]
        if sub:
            e = e[fk(sub[0])]
            if len(sub) > 1:
                e = e[mk(sub[1])]
        return e

    def name(self, i, sub=()):
        return ' '.join([self.L[i]['name']] + [fk(s) for s in sub[:1]] + [mk(s) for s in sub[1:]])

    def shift(self, i, sub):
        l = self.L[i]
        s = self.spec.hf_shift(l, sub[0]) if sub else 0.0
        if len(sub) > 1:
            s += self.spec.z_shift(l, *sub, quad=self.quad.get((i, *sub), 0.0))
        return s

    def tol(self):
        s = max([abs(l['E']) for l in self.L] + [r.setf or 0 for r in self.tr.values()]
                + [abs(w) for w in self.want.values() if w is not HOLD]) + self.mag + 1e9
        B = self.spec.B
        return 4e-14 * s + 1e-2 + 3e-9 * sum(abs((l['lande'] or 0) * 6 * B) * 1.4e6 for l in self.L) + max(
            self.spec.tol(l) for l in self.L) + 1e-14 * sum(abs(q) for q in self.quad.values()) * B * B

    def rsub(self, i, deep=None):
        F = self.rng.choice(Fs(self.spec.I, self.L[i]['J']))
        M = self.rng.choice(Ms(F))
        return {0: (), 1: (F,), 2: (F, M)}[self.rng.randrange(3) if deep is None else deep]

    def group(self, i):
        seen, todo = {i}, [i]
        while todo:
            x = todo.pop()
            for p, r in self.tr.items():
                if r.setf is not None and x in p:
                    for y in p - seen:
                        seen.add(y)
                        todo.append(y)
        return seen

    def ends(self, p):
        return (list(p) * 2)[:2]

    def satisfied(self, g):
        return all(abs(abs(self.E(a) - self.E(b)) - r.setf) <= self.tol() for p, r in self.tr.items()
                   for a, b in [self.ends(p)] if r.setf is not None and p <= g)

    def ordered(self, p):
        """the transition reports its levels in their present order, far apart"""
        t = self.tr[p].t
        u = [i for i in p if self.lv[i] is t.E_upper]
        lo = [i for i in p if self.lv[i] is t.E_lower]
        return len(p) == 2 and len(u) == len(lo) == 1 and self.E(u[0]) - self.E(lo[0]) > 2e13

    def far(self):
        es = sorted(self.E(i) for i in range(self.n))
        return all(b - a > 1e13 for a, b in zip(es, es[1:]))

    # --- steps -------------------------------------------------------------------------------------------------------
    def run(self, steps):
        for i in self.rng.sample(range(self.n), self.rng.randint(1, self.n)):
            self.step('level', i)
        for _ in range(steps):
            self.step(self.rng.choice(self.ops))

    def step(self, op, *args):
        self.want = {i: self.E(i) for i in range(self.n)}
        self.mag = max(abs(self.E(i)) for i in range(self.n))
        self.cat = op
        self.rel = None
        self.what = op
        if self.when and op in self.when:
            # whatever is already wrong before this operation is not this operation's doing
            try:
                for a in self.aspects:
                    getattr(self, 'check_' + a)()
            except Violation:
                raise Skip
        done = getattr(self, 'op_' + op.replace('-', '_'))(*args)
        if done is False:
            return
        self.m.op(op, self.what)
        self.m.seen('op-' + op)
        self.settle()
        self.crossed |= not self.far() or not all(len(p) == 1 or self.ordered(p) for p in self.tr)
        for a in self.aspects if not self.when or op in self.when else ():
            getattr(self, 'check_' + a)()
        self.m.state(op, len(self.present), len(self.tr), len(self.lal), len(self.tal))

    def settle(self):
        m, tol = self.m, self.tol()
        watched = self.cat in self.cats
        for i, e in enumerate(self.lv):
            got = e.level.to('Hz').magnitude
            if watched and self.want[i] is not HOLD:
                m.ok(abs(got - self.want[i]) <= tol, 'energy',
                     lambda: f'{self.what}: {self.L[i]["name"]} at {got!r}, expected {self.want[i]!r}')
            self.L[i]['E'] = got
        if self.rel is not None and watched:
            for p, r in self.tr.items():
                if r.setf is not None and p <= self.rel:
                    got = r.t.freq.to('Hz').magnitude
                    a, b = self.ends(p)
                    m.ok(abs(got - r.setf) <= 2 * tol, 'set-frequency',
                         lambda: f'{self.what}: {r.t.name} at {got!r}, set to {r.setf!r}')
                    m.ok(abs(abs(self.E(a) - self.E(b)) - r.setf) <= 2 * tol, 'set-difference',
                         lambda: f'{self.what}: {r.t.name}: levels {abs(self.E(a) - self.E(b))!r} apart, set to {r.setf!r}')
                    m.seen('enforced')

    def enforced(self, i, others=False):
        """the group of level i is made consistent: its lowest level stays, the rest is given by the frequencies"""
        g = self.group(i)
        low = min(self.E(x) for x in g)
        for x in g:
            if self.E(x) != low or sum(self.E(y) == low for y in g) > 1:
                self.want[x] = HOLD
        if others:
            for x in range(self.n):
                h = self.group(x)
                if not h & g and not self.satisfied(h):
                    self.want[x] = HOLD
        self.rel = g

    def op_level(self, i=None):
        rng = self.rng
        i = rng.randrange(self.n) if i is None else i
        e = self.lv[i]
        how = rng.choice(['add', 'append', 'setitem', 'eager', 'alias'])
        al = self.fresh_alias(self.lal)
        self.what = f'{how} {self.name(i)} (present: {i in self.present}) alias {al!r}'
        if how == 'add':
            r = self.atom.add_level(e)
            self.m.same(r, e, 'add-returns', self.what)
        elif how == 'append':
            self.atom.levels.append(e)
        elif how == 'eager':
            self.atom.add_level(e, populate_sublevels=True)
        elif how == 'setitem':
            self.atom.levels[al] = e
        else:
            self.atom.add_level(e, alias=al)
        self.enter(i)
        if how in ('setitem', 'alias'):
            self.lal[al] = (i, ())

    def enter(self, i):
        if self.lv[i].alias is not None:
            self.lal[self.lv[i].alias] = (i, ())
        self.present.add(i)

    def fresh_alias(self, used):
        rng = self.rng
        r = rng.random()
        if r < 0.25 and used:
            return rng.choice(list(used))
        if r < 0.5:
            return rng.choice(ODD)
        return f'n{next(self.serial)}'

    def free_to_set(self, p):
        """setting this pair closes no loop"""
        r = self.tr.get(p)
        a, b = self.ends(p)
        if a == b:
            return False
        return (r is not None and r.setf is not None) or b not in self.group(a)

    def op_new(self, p=None):
        from atomtoolkit.atom import Transition
        rng, tk = self.rng, self.tk
        left = [q for q in self.pairs if q not in self.tr]
        if p is None:
            if not left:
                return False
            p = rng.choice(left)
        a, b = self.ends(p)
        if rng.random() < 0.5:
            a, b = b, a
        A = rng.choice([None, lib.logu(rng, 1, 1e8)])
        setf = None
        if rng.random() < 0.4 and p not in self.tr and self.free_to_set(p):
            now = abs(self.E(a) - self.E(b))
            setf = self.target(now)
        q = None if setf is None else quantity(rng, setf)
        setf = None if q is None else q.to('Hz').magnitude
        Aq = None if A is None else rng.choice([A * tk.Hz, tk.Q_(A / 1e6, 'MHz')])
        forms = ['add', 'append', 'setitem', 'objects']
        if {a, b} <= self.present:
            forms += ['names', 'aliases']
        how = rng.choice(forms)
        x, y = self.lv[a], self.lv[b]
        if p in self.tr and how in ('names', 'objects', 'aliases'):
            how = 'add'
        al = self.fresh_alias(self.tal) if how == 'setitem' or rng.random() < 0.2 else None
        self.what = f'{how} {self.name(a)} - {self.name(b)} freq {setf} A {A} alias {al!r} (replaces: {p in self.tr})'
        kw = dict(freq=q, A=Aq)
        self.forget(p)
        if how == 'add':
            t = Transition(x, y, **kw)
            self.m.same(self.atom.add_transition(t), t, 'add-returns', self.what)
        elif how == 'append':
            t = Transition(x, y, **kw)
            self.atom.transitions.append(t)
        elif how == 'setitem':
            t = Transition(x, y, **kw)
            self.atom.transitions[al] = t
            self.tal[al] = (p, None)
        elif how == 'objects':
            t = self.atom.add_transition((x, y), **kw)
        elif how == 'names':
            t = self.atom.add_transition((x.name, y.name), **kw)
        else:
            k = [rng.choice([z.name] + [n for n, (i, s) in self.lal.items() if i == c and not s])
                 for z, c in ((x, a), (y, b))]
            t = self.atom.add_transition(tuple(k), **kw)
        if al is not None and how != 'setitem':
            t.alias = al
            self.tal[al] = (p, None)
        for c in (a, b):
            if c not in self.present:
                self.enter(c)
        self.tr[p] = Rec(t, (a, b), A, setf)
        if setf is not None:
            self.cat = 'new-set'
            self.enforced(a, others=True)

    def forget(self, p):
        self.dead |= {k for k, v in self.tal.items() if v[0] == p}
        self.tal = {k: v for k, v in self.tal.items() if v[0] != p}
        r = self.tr.pop(p, None)
        return r

    def target(self, now):
        rng = self.rng
        if self.apart:
            return max(3e13, now + rng.choice([0.0, lib.signed(rng, 1e3, 1e12), lib.signed(rng, 1e10, 2e13)]))
        return rng.choice([0.0, now, now, abs(now + lib.signed(rng, 1e3, 1e10)), now * rng.uniform(0.5, 2),
                           lib.logu(rng, 1e9, 1e15)])

    def op_move(self):
        """assign an energy to a level or sublevel"""
        rng = self.rng
        i = rng.randrange(self.n)
        if i not in self.present:
            return False
        sub = self.rsub(i)
        x = self.obj(i, sub)
        now = self.E(i) + self.shift(i, sub)
        deltas = [0.0, lib.signed(rng, 1, 1e12), lib.signed(rng, 1e9, 1e13)]
        if not self.apart:
            j = rng.randrange(self.n)
            deltas += [self.E(j) - now, rng.uniform(-1e15, 1e15), -now]
        target = now + rng.choice(deltas)
        q = rng.choice([target * self.tk.Hz, self.tk.Q_(target / 1e9, 'GHz'),
                        self.tk.Q_(target / (o.C_LIGHT * 100), 'cm^-1')])
        target = q.to('Hz').magnitude
        self.what = f'assign {target!r} to {x.name}, was {now!r}'
        x.level = q
        self.cat = 'move'
        g = self.group(i) - {i}
        for j in g:
            self.want[j] = HOLD
        self.want[i] = self.E(i) + target - now
        if 'move' in self.cats:
            got = x.level.to('Hz').magnitude
            self.m.ok(abs(got - target) <= self.tol(), 'assigned', lambda: f'{self.what}: reads {got!r}')
            self.m.seen('moved-' + ('level', 'hf', 'z')[len(sub)])
            if g:
                self.m.seen('moved-tied')

    def op_const(self):
        rng, tk = self.rng, self.tk
        i = rng.randrange(self.n)
        if i not in self.present:
            return False
        l, e = self.L[i], self.lv[i]
        k = rng.choice(['A', 'A', 'Bq', 'C', 'lande', 'lande', 'quad', 'quad'])
        if k == 'lande':
            l[k] = rng.choice([0.0, lib.signed(rng, .1, 3)])
            e.lande = l[k]
            self.cat = 'lande'
        elif k == 'quad':
            sub = self.rsub(i, 2)
            self.quad[(i, *sub)] = rng.choice([0.0, lib.signed(rng, .1, 1e3)])
            self.obj(i, sub).quadratic_zeeman = self.quad[(i, *sub)]
            self.cat = 'lande'
        else:
            l[k] = rng.choice([0.0, lib.signed(rng, 1e5, 1e9)])
            setattr(e, {'A': 'hfA', 'Bq': 'hfB', 'C': 'hfC'}[k], rng.choice([l[k] * tk.Hz, tk.Q_(l[k] / 1e6, 'MHz')]))
            self.cat = 'hf'
        self.what = f'{k} of {self.name(i)}'

    def op_field(self):
        self.spec.B = self.rng.choice([0.0, lib.signed(self.rng, 1e-2, 2e3)])
        self.atom.B = self.rng.choice([self.spec.B * self.tk.G, self.tk.Q_(self.spec.B * 1e3, 'mG')])
        self.what = f'B = {self.spec.B}'

    def op_set(self):
        """set the frequency of a transition"""
        rng = self.rng
        ps = [p for p in self.tr if self.free_to_set(p)]
        if not ps:
            return False
        p = rng.choice(ps)
        r = self.tr[p]
        if r.setf is not None and rng.random() < 0.35:
            f = r.setf                       # the same frequency again, whatever happened to the levels meanwhile
            self.m.seen('set-again')
        else:
            f = self.target(abs(self.E(min(p)) - self.E(max(p))))
        q = quantity(rng, f)
        f = q.to('Hz').magnitude
        self.what = f'{r.t.name}.freq = {f!r} ({q.units}), was {r.t.freq_Hz!r}, last set to {r.setf!r}'
        if rng.random() < 0.5:
            r.t.freq = q
        else:
            r.t.set_frequency(q)
        r.setf = f
        if f == 0:
            self.m.seen('set-zero')
        self.enforced(min(p))

    def subs(self, p, depth):
        t = self.tr[p].t
        s = list(t.values())
        return s if depth == 1 else [z for x in s for z in x.values()]

    def ends_of(self, s):
        out = []
        for x in (s.E_1, s.E_2):
            i = next((i for i, e in enumerate(self.lv) if e is x.manifold), None)
            sub = () if x.term.F is None else (dbl(x.term.F),) if x.term.mF is None else (dbl(x.term.F), dbl(x.term.mF))
            out.append((i, sub))
        return out

    def freq_of(self, s):
        (i, a), (j, b) = self.ends_of(s)
        return abs(self.E(i) + self.shift(i, a) - self.E(j) - self.shift(j, b))

    def op_set_sub(self):
        rng = self.rng
        ps = [p for p in self.tr if self.free_to_set(p) and self.ordered(p)]
        if not ps:
            return False
        p = rng.choice(ps)
        r = self.tr[p]
        s = self.subs(p, rng.choice([1, 2]))
        if not s:
            return False
        s = rng.choice(s)
        now = self.freq_of(s)
        q = quantity(rng, now + rng.choice([0.0, lib.signed(rng, 1e3, 1e9), lib.signed(rng, 1e6, 1e12)]))
        f = q.to('Hz').magnitude
        was_off = not self.satisfied(self.group(min(p)) | set(p))
        self.what = f'{s.name}.freq = {f!r}, was {now!r} (group perturbed: {was_off})'
        a, b = self.ends(p)
        top = abs(self.E(a) - self.E(b))
        if rng.random() < 0.5:
            s.freq = q
        else:
            s.set_frequency(q)
        r.setf = top + f - now
        self.enforced(a)
        if 'set-sub' in self.cats:
            got = s.freq.to('Hz').magnitude
            self.m.ok(abs(got - f) <= self.tol(), 'sub-frequency', lambda: f'{self.what}: reads {got!r}')
            self.m.seen('set-sub-perturbed' if was_off else 'set-sub')

    def op_A(self):
        rng = self.rng
        if not self.tr:
            return False
        p = rng.choice(list(self.tr))
        r = self.tr[p]
        r.A = rng.choice([None, lib.logu(rng, 1, 1e8), lib.logu(rng, 1, 1e8)])
        r.t.A = None if r.A is None else rng.choice([r.A * self.tk.Hz, self.tk.Q_(r.A / 1e6, 'MHz')])
        self.what = f'A of {r.t.name} = {r.A}'

    def op_alias(self):
        rng = self.rng
        if not self.present:
            return False
        i = rng.choice(list(self.present))
        sub = self.rsub(i)
        al = self.fresh_alias(self.lal)
        self.what = f'alias {al!r} for {self.name(i, sub)} (was {self.lal.get(al)})'
        if al in self.lal:
            self.m.seen('alias-reused')
        self.obj(i, sub).alias = al
        self.lal[al] = (i, sub)

    def op_talias(self):
        rng = self.rng
        if not self.tr:
            return False
        p = rng.choice(list(self.tr))
        s = rng.choice([self.tr[p].t] + self.subs(p, 1)[:3] + self.subs(p, 2)[:3])
        al = self.fresh_alias(self.tal)
        self.what = f'alias {al!r} for {s.name}'
        s.alias = al
        self.tal[al] = (p, None if s is self.tr[p].t else s)

    def op_remove_t(self):
        rng = self.rng
        if not self.tr:
            return False
        p = rng.choice(list(self.tr))
        a, b = self.ends(p)
        if rng.random() < 0.5:
            a, b = b, a
        key = rng.choice([(self.name(a), self.name(b)), (self.lv[a], self.lv[b])]
                         + [k for k, (x, s) in self.tal.items() if x == p and s is None])
        gone = [k for k, v in self.tal.items() if v[0] == p]
        self.what = f'del transitions[{key!r}]'
        del self.atom.transitions[key]
        self.old[p] = self.forget(p)
        if 'coherent' in self.aspects:
            for k in gone:
                self.m.raises(KeyError, lambda: self.atom.transitions[k], 'alias-gone', f'{self.what}: {k}')

    def op_remove_l(self):
        rng = self.rng
        if len(self.present) < 2 or rng.random() < 0.5:
            return False
        i = rng.choice(list(self.present))
        key = rng.choice([self.name(i)] + [k for k, v in self.lal.items() if v == (i, ())])
        self.what = f'del levels[{key!r}]'
        gone = [k for k, v in self.lal.items() if v[0] == i]
        del self.atom.levels[key]
        for p in [p for p in self.tr if i in p]:
            self.old[p] = self.forget(p)
        self.dead |= {k for k, v in self.lal.items() if v[0] == i}
        self.lal = {k: v for k, v in self.lal.items() if v[0] != i}
        self.present.discard(i)
        if 'coherent' in self.aspects:
            for k in gone:
                self.m.raises(KeyError, lambda: self.atom.levels[k], 'alias-gone', f'{self.what}: {k}')

    def op_replace_t(self):
        if not self.tr:
            return False
        p = self.rng.choice(list(self.tr))
        if self.tr[p].setf is not None:
            return False
        return self.op_new(p)

    def op_readd_t(self):
        """put a removed transition back"""
        rng = self.rng
        ps = [p for p in self.old if p not in self.tr and self.old[p] is not None
              and {id(self.old[p].t.E_1), id(self.old[p].t.E_2)} == {id(self.lv[i]) for i in p}]
        if not ps:
            return False
        p = rng.choice(ps)
        r = self.old.pop(p)
        a, b = self.ends(p)
        if r.setf is not None and b in self.group(a):
            return False
        self.what = f'put {r.t.name} back'
        self.atom.add_transition(r.t)
        for c in (a, b):
            if c not in self.present:
                self.enter(c)
        if r.t.alias is not None:
            self.tal[r.t.alias] = (p, None)
        self.tr[p] = r
        if r.setf is not None:
            self.cat = 'new-set'
            self.enforced(a, others=True)

    def op_joined_t(self):
        """two levels that are joined already are added by name: nothing happens"""
        rng, tk = self.rng, self.tk
        # (not where its alias has passed to another one: it might or might not take it back)
        ps = [p for p, r in self.tr.items() if self.ends(p)[0] != self.ends(p)[1]
              and (r.t.alias is None or self.tal.get(r.t.alias) == (p, None))]
        if not ps:
            return False
        p = rng.choice(ps)
        a, b = rng.sample(self.ends(p), 2)
        self.what = f'names {self.name(a)}, {self.name(b)} again'
        kw = rng.choice([{}, dict(A=1e6 * tk.Hz)])
        self.m.same(self.atom.add_transition((self.lv[a].name, self.lv[b].name), **kw), self.tr[p].t, 'add-joined', self.what)

    def renew(self, i):
        """a new level object of the same name, to take the place of level i: it takes over its transitions"""
        l = self.L[i]
        for p in [p for p in self.old if i in p]:
            r = self.old.pop(p)
            if r is not None and r.setf is None and len(p) == 2 and i in self.present:
                quad = {k: v for k, v in self.quad.items() if k[0] == i}
                self.ghosts.append((p, r, i, self.lv[i], dict(l), quad))
        l['E'] += self.rng.choice([0.0, 1e9])
        l['A'] = self.rng.choice([l['A'], 1e8])
        self.displace(i)
        self.lv[i] = Spec.level(self.rng, l)
        self.m.seen('renewed-joined' if any(i in p for p in self.tr) else 'renewed')

    def displace(self, i):
        """what leads to the level that is in place i is forgotten"""
        self.quad = {k: v for k, v in self.quad.items() if k[0] != i}
        self.dead |= {k for k, v in self.lal.items() if v[0] == i}
        self.lal = {k: v for k, v in self.lal.items() if v[0] != i}
        gone = {k for k, (p, s) in self.tal.items() if s is not None and i in p}
        self.dead |= gone
        self.tal = {k: v for k, v in self.tal.items() if k not in gone}
        self.want[i] = HOLD

    def op_replace_l(self):
        """a new level of the same name takes the place of a level and joins its transitions"""
        rng = self.rng
        if not self.present or rng.random() < 0.5:
            return False
        i = rng.choice(sorted(self.present))
        self.renew(i)
        self.what = f'replace {self.name(i)}'
        rng.choice([self.atom.add_level, self.atom.levels.append])(self.lv[i])

    def op_foreign(self):
        """a transition brings levels of its own, of names that are in use"""
        from atomtoolkit.atom import Transition
        rng = self.rng
        ps = [p for p in self.pairs if p & self.present and len(p) == 2 and (p not in self.tr or self.tr[p].setf is None)]
        if not ps:
            return False
        p = rng.choice(ps)
        a, b = rng.sample(sorted(p), 2)
        new = rng.choice([{a}, {b}, {a, b}]) & self.present
        if not new:
            return False
        self.forget(p)
        for i in new:
            self.renew(i)
        A = rng.choice([None, lib.logu(rng, 1, 1e8)])
        kw = dict(A=None if A is None else A * self.tk.Hz)
        how = rng.choice(['add', 'append', 'setitem', 'objects'])
        self.what = f'{how} {self.name(a)} - {self.name(b)} with new levels {[self.name(i) for i in new]}'
        if how == 'objects':
            t = self.atom.add_transition((self.lv[a], self.lv[b]), **kw)
        else:
            t = Transition(self.lv[a], self.lv[b], **kw)
            if how == 'add':
                self.m.same(self.atom.add_transition(t), t, 'add-returns', self.what)
            elif how == 'append':
                self.atom.transitions.append(t)
            else:
                al = self.fresh_alias(self.tal)
                self.atom.transitions[al] = t
                self.tal[al] = (p, None)
        for c in (a, b):
            if c not in self.present:
                self.enter(c)
        self.tr[p] = Rec(t, (a, b), A, None)

    def op_ghost(self):
        """a removed transition comes back with a level that was replaced meanwhile: the level comes back as well"""
        gs = [g for g in self.ghosts if g[0] not in self.tr and self.lv[g[2]] is not g[3]
              and {id(g[1].t.E_1), id(g[1].t.E_2)} == {id(g[3])} | {id(self.lv[j]) for j in g[0] - {g[2]}}]
        if not gs:
            return False
        g = self.rng.choice(gs)
        p, r, i, e, l, quad = g
        self.ghosts = [x for x in self.ghosts if x is not g]
        for q in [q for q in self.old if i in q]:
            del self.old[q]
        self.what = f'put {r.t.name} back with the {self.name(i)} it was made for'
        self.displace(i)
        self.lv[i] = e
        self.L[i].update(l)
        self.quad.update(quad)
        self.present.discard(i)
        self.atom.add_transition(r.t)
        for c in p:
            if c not in self.present:
                self.enter(c)
        if r.t.alias is not None:
            self.tal[r.t.alias] = (p, None)
        self.tr[p] = r

    def op_saveload(self):
        from atomtoolkit.atom import Atom
        if not self.present or self.rng.random() < 0.5:
            return False
        gen = self.rng.randint(1, 2)
        for _ in range(gen):
            d = tempfile.mkdtemp(prefix='verif-machine-')
            try:
                path = os.path.join(d, 'a.atom')
                self.atom.save(path)
                self.atom = Atom.load(path)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        a = self.atom
        for i in self.present:
            self.lv[i] = a.levels[self.L[i]['name']]
        gone = {}
        for i in range(self.n):
            if i not in self.present:
                # levels that were not in the atom stay behind: fresh ones take their place
                gone[i] = self.lv[i]
                self.lv[i] = Spec.level(self.rng, self.L[i])
                self.quad = {k: v for k, v in self.quad.items() if k[0] != i}
        self.ghosts = []
        for p, r in self.tr.items():
            x, y = self.ends(p)
            r.t = a.transitions[self.name(x), self.name(y)]
        for k, (p, s) in list(self.tal.items()):
            if s is not None:
                self.tal[k] = (p, a.transitions[s.E_1.name, s.E_2.name])
        self.old = {}
        self.what = f'save and load, {gen} generations'

    def op_look(self):
        """reads that fill in what is computed on demand"""
        rng, a = self.rng, self.atom
        k = rng.randrange(8)
        self.what = f'look {k}'
        if k == 0 and self.tr:
            len(rng.choice(list(self.tr.values())).t)
        elif k == 1 and self.present:
            len(self.lv[rng.choice(list(self.present))])
        elif k == 2 and self.tr:
            p = rng.choice(list(self.tr))
            self.subs(p, rng.choice([1, 2]))
        elif k == 3 and self.present:
            i = rng.choice(list(self.present))
            self.obj(i, self.rsub(i, 2)).level
        elif k == 4 and self.present:
            try:
                a.compute_branching_ratios(self.L[rng.choice(list(self.present))]['name'])
            except ValueError:
                pass
        elif k == 5 and self.present:
            i = rng.choice(list(self.present))
            a.linked_levels(self.name(i, self.rsub(i)))
        elif k == 6:
            for key in (('nope', 'nada'), ('nope',) * 2, 'nothing here'):
                try:
                    a.transitions[key]
                except LookupError:
                    pass
        elif k == 7:
            repr(a), [repr(x) for x in a.levels.values()], [repr(t) for t in a.transitions.values()]
            list(a.levels), list(a.transitions), a.levels.list_names(), a.transitions.list_names()

    def op_refuse(self):
        """something that cannot be done: it is refused, and nothing has changed"""
        import pint
        from atomtoolkit.atom import Transition
        rng, tk, a, m = self.rng, self.tk, self.atom, self.m
        if not self.present:
            return False
        i = rng.choice(sorted(self.present))
        sub = self.rsub(i)
        bad = rng.choice([tk.Q_(rng.choice([0.0, 1.0, 3e14]), rng.choice(['kg', 'K', 'A', 's', 'G', ''])), 5, 2.5e14, '3 THz'])
        what = rng.choice(['level', 'hf', 'B', 'freq', 'freq', 'sub-freq', 'A', 'A', 'new-freq', 'new-A', 'names-quantity',
                           'names', 'names', 'del-level', 'del-transition', 'look', 'rates', 'garbage', 'garbage-t', 'save'])
        names = [k for k in ('no such level', self.name(i) + 'x', 'nope F=1', '') if k not in self.lal]
        names += [self.name(j) for j in range(self.n) if j not in self.present and self.name(j) not in self.lal]
        nope = rng.choice(names)
        free = [p for p in self.pairs if p not in self.tr and p <= self.present]
        exc = (pint.DimensionalityError, AttributeError, TypeError, ValueError) if what not in ('look', 'names') else KeyError
        known = rng.choice([self.name(i)] + [k for k, v in self.lal.items() if v == (i, ())])
        if self.lal.get(known, (i, ())) != (i, ()):
            return False
        if what == 'level':
            f = lambda: setattr(self.obj(i, sub), 'level', bad)
        elif what == 'hf':
            f = lambda: setattr(self.lv[i], rng.choice(['hfA', 'hfB', 'hfC']), bad)
        elif what == 'B':
            if str(getattr(bad, 'units', '')) == 'gauss':
                return False
            f = lambda: setattr(a, 'B', bad)
        elif what in ('freq', 'sub-freq', 'A'):
            ps = list(self.tr)
            if not ps:
                return False
            p = rng.choice(ps)
            t = self.tr[p].t
            if what == 'sub-freq':
                s = self.subs(p, rng.choice([1, 2]))
                if not s:
                    return False
                t = rng.choice(s)
            f = rng.choice([lambda: setattr(t, 'freq', bad), lambda: t.set_frequency(bad)]) if what != 'A' else \
                lambda: setattr(t, 'A', bad)
        elif what in ('new-freq', 'new-A', 'names-quantity'):
            ps = [p for p in self.pairs if p not in self.tr and len(p) == 2]
            if what == 'names-quantity':
                ps = [p for p in ps if p <= self.present]
            if not ps:
                return False
            x, y = rng.sample([self.lv[j] for j in rng.choice(ps)], 2)
            kw = {'freq': bad} if what == 'new-freq' or what == 'names-quantity' and rng.random() < .5 else {'A': bad}
            f = (lambda: a.add_transition((x.name, y.name), **kw)) if what == 'names-quantity' else \
                (lambda: a.add_transition(Transition(x, y, **kw)))
            if what == 'names-quantity' and {x.name, y.name} & set(self.lal):
                return False
        elif what == 'names':
            k = rng.choice([(known, nope), (nope, known), (nope, nope)])
            if k in self.tal:
                return False
            f = lambda: a.add_transition(k, **rng.choice([{}, dict(A=1e6 * tk.Hz), dict(freq=3e14 * tk.Hz)]))
        elif what == 'del-level':
            exc = KeyError
            f = lambda: a.levels.__delitem__(nope)
        elif what == 'del-transition':
            exc = KeyError
            k = rng.choice([(known, nope), (nope, known), 'no such line']
                           + [tuple(rng.sample([self.name(j) for j in p], 2)) for p in free
                              if len(p) == 2 and not {self.name(j) for j in p} & set(self.lal)])
            if k in self.tal:
                return False
            f = lambda: a.transitions.__delitem__(k)
        elif what == 'look':
            f = rng.choice([lambda: a.levels[nope], lambda: a.transitions[known, nope], lambda: a.transitions[nope, known],
                            lambda: a.transitions['no such line'], lambda: self.lv[i]['F=77'],
                            lambda: self.obj(i, self.rsub(i, 1))['mF=77']]
                           + [lambda: t.t['F=77', 'F=78'] for t in self.tr.values()])
        elif what == 'rates':
            exc = KeyError
            f = rng.choice([lambda: a.compute_branching_ratios(nope), lambda: a.state_lifetime(nope),
                            lambda: a.linked_levels(nope)])
        elif what == 'garbage':
            f = rng.choice([lambda: a.levels.__setitem__(rng.choice(list(self.lal) + ['new']), bad),
                            lambda: a.add_level(bad), lambda: a.levels.append(bad)])
        elif what == 'garbage-t':
            g = rng.choice([5, 2.5, 'a line', tk.Q_(1, 'Hz')])
            f = rng.choice([lambda: a.transitions.__setitem__(rng.choice(list(self.tal) + ['new']), g),
                            lambda: a.add_transition(g), lambda: a.transitions.append(g)])
        else:
            exc = OSError
            f = lambda: a.save('/nonexistent/verif/dir/x')
        self.what = f'refused {what}: {bad!r} {self.name(i, sub)!r} {nope!r}'
        m.raises(exc, f, 'refused', self.what)
        m.seen('refused-' + what)
        if rng.random() < 0.3 and all(self.satisfied(self.group(j)) for j in range(self.n)):
            a.enforce_consistency()            # goes through as before, with nothing to do
            m.seen('refused-enforced')

    # --- monitors ----------------------------------------------------------------------------------------------------
    def some_level(self):
        return self.rng.choice(sorted(self.present)) if self.present else None

    def check_struct(self):
        """C06: the census of one level"""
        i = self.some_level()
        if i is None:
            return
        m, e, l, I = self.m, self.lv[i], self.L[i], self.spec.I
        want = {fk(F): F for F in Fs(I, l['J'])}
        m.eq(sorted(e.keys()), sorted(want), 'hf-keys', lambda: f'{self.what}: {l["name"]}')
        m.same(e.atom, self.atom, 'atom', l['name'])
        for k, F in want.items():
            h = e[k]
            m.ok(h.parent is e and h.manifold is e and h.atom is self.atom, 'hf-links',
                 lambda: f'{self.what}: {h.name} parent {h.parent is e} manifold {h.manifold is e} '
                         f'atom {h.atom is self.atom}')
            m.eq((h.name, dbl(h.term.F), dbl(h.term.J)), (f'{l["name"]} {k}', F, l['J']), 'hf-numbers', self.what)
            m.eq(sorted(h.keys()), sorted(mk(M) for M in Ms(F)), 'z-keys', lambda: f'{self.what}: {h.name}')
            for M in Ms(F):
                z = h[mk(M)]
                m.ok(z.parent is h and z.manifold is e and z.atom is self.atom, 'z-links',
                     lambda: f'{self.what}: {z.name} parent {z.parent is h} manifold {z.manifold is e} '
                             f'atom {z.atom is self.atom}')
                m.eq((z.name, dbl(z.term.F), dbl(z.term.mF)), (f'{h.name} {mk(M)}', F, M), 'z-numbers', self.what)
        m.seen('history-census')

    def check_hf(self):
        """C07: shifts follow the present constants, about the present level energy"""
        i = self.some_level()
        if i is None:
            return
        for F in Fs(self.spec.I, self.L[i]['J']):
            h = self.obj(i, (F,))
            got, want = h.shift.to('Hz').magnitude, self.shift(i, (F,))
            self.m.ok(abs(got - want) <= self.spec.tol(self.L[i]), 'hf-shift',
                      lambda: f'{self.what}: {h.name} shifted by {got!r}, expected {want!r}')
            lev = h.level.to('Hz').magnitude
            self.m.ok(abs(lev - self.E(i) - want) <= self.tol(), 'hf-level',
                      lambda: f'{self.what}: {h.name} at {lev!r}, expected {self.E(i) + want!r}')

    def check_zeeman(self):
        """C08"""
        i = self.some_level()
        if i is None:
            return
        F = self.rsub(i, 1)[0]
        h = self.obj(i, (F,))
        for M in Ms(F):
            z = self.obj(i, (F, M))
            want = self.shift(i, (F, M)) - self.shift(i, (F,))
            got = z.shift.to('Hz').magnitude
            t = 1e-3 + 3e-9 * abs(want) + 1e-12 * (abs((self.L[i]['lande'] or 0) * 9 * self.spec.B * 1.4e6)
                                                   + abs(self.quad.get((i, F, M), 0)) * self.spec.B ** 2)
            self.m.ok(abs(got - want) <= t, 'z-shift', lambda: f'{self.what}: {z.name} shifted by {got!r}, expected {want!r}')
            d = z.level.to('Hz').magnitude - h.level.to('Hz').magnitude
            self.m.ok(abs(d - want) <= self.tol(), 'z-level', lambda: f'{self.what}: {z.name} {d!r} from {h.name}')

    def check_directory(self):
        """C10"""
        m, rng, a, n = self.m, self.rng, self.atom, len(self.present)
        L = a.levels
        names = [self.L[i]['name'] for i in self.present]
        ks = list(L.keys())
        m.ok(sorted(ks) == sorted(names), 'keys', lambda: f'{self.what}: {ks} vs {names}')
        m.ok(len(L) == n and list(L) == ks and L.list_names() == ks, 'listing', self.what)
        m.ok(sorted(map(id, L.values())) == sorted(id(self.lv[i]) for i in self.present), 'values', self.what)
        want = sorted(self.E(i) for i in self.present)
        got = [L[k] for k in range(n)]
        m.ok([e.level.to('Hz').magnitude for e in got] == want, 'rank-order',
             lambda: f'{self.what}: {[e.level_Hz for e in got]} vs {want}')
        m.ok(len({id(e) for e in got}) == n, 'rank-each-once', self.what)
        m.ok(all(any(e is self.lv[i] for i in self.present) for e in got), 'rank-object', self.what)
        if n:
            k = rng.randrange(-n, n)
            m.same(L[k], got[k], 'rank-index', self.what)
            s = slice(*(rng.choice([None, rng.randint(-n, n)]) for _ in range(2)))
            m.ok([id(x) for x in L[s]] == [id(x) for x in got[s]], 'rank-slice', self.what)
        for al, (i, sub) in self.lal.items():
            try:
                x = L[al]
            except KeyError:
                x = None
            m.ok(x is self.obj(i, sub), 'alias', lambda: f'{self.what}: {al!r} gives {x!r}, not {self.name(i, sub)}')
        i = self.some_level()
        if i is not None:
            sub = self.rsub(i)
            x = self.obj(i, sub)
            if self.name(i, sub) not in self.lal:
                m.same(L[self.name(i, sub)], x, 'by-name', self.what)
            if len(sub) == 2 and self.spec.I == 0:
                m.same(L[f'{self.L[i]["name"]} {mk(sub[1]).replace("mF", "mJ")}'], x, 'mJ', self.what)
            bad = rng.choice([self.L[i]['name'] + ' F=77', self.L[i]['name'] + 'x', f'{self.name(i, self.rsub(i, 1))} mF=77',
                              'nothing here', 'no such F=1', 'no such F=1 mF=0'])
            if bad not in self.lal:
                m.raises(KeyError, lambda: L[bad], 'unknown', f'{self.what}: {bad}')
        for i in range(self.n):
            if i not in self.present and self.L[i]['name'] not in self.lal:
                m.raises(KeyError, lambda: L[self.L[i]['name']], 'unknown', self.what)

    def spell(self, i, sub):
        x = self.obj(i, sub)
        out = [x, self.name(i, sub)] + [k for k, v in self.lal.items() if v == (i, tuple(sub))]
        if not sub:
            out += ranks([(self.lv[j], self.E(j)) for j in self.present], x)
        return [k for k in out if not isinstance(k, str) or k not in self.lal or self.lal[k] == (i, tuple(sub))]

    def get(self, key):
        try:
            return self.atom.transitions[key]
        except KeyError:
            return None

    def check_pairs(self):
        """C11 (and what C16 says about lookups): transitions are found under every spelling of the pair"""
        m, rng = self.m, self.rng
        for p, r in self.tr.items():
            a, b = self.ends(p)
            for _ in range(2):
                key = (rng.choice(self.spell(a, ())), rng.choice(self.spell(b, ())))
                if rng.random() < 0.5:
                    key = key[::-1]
                t = self.get(key)
                m.ok(t is r.t, 'pair', lambda: f'{self.what}: {key!r} gives {t!r}, not {r.t!r}')
            m.ok({id(r.t.E_1), id(r.t.E_2)} == {id(self.lv[a]), id(self.lv[b])}, 'joins', self.what)
        for _ in range(2):
            if len(self.present) and rng.random() < 0.7:
                a, b = (rng.choice(sorted(self.present)) for _ in range(2))
                if frozenset((a, b)) not in self.tr:
                    key = (rng.choice(self.spell(a, ())), rng.choice(self.spell(b, ())))
                    t = self.get(key)
                    m.ok(t is None, 'absent', lambda: f'{self.what}: {key!r} gives {t!r}')
        for al, (p, s) in self.tal.items():
            want = self.tr[p].t if s is None else s
            got = self.get(al)
            m.ok(got is want, 'talias', lambda: f'{self.what}: {al!r} gives {got!r}, not {want!r}')
        ids = sorted(map(id, self.atom.transitions.values()))
        m.ok(ids == sorted(id(r.t) for r in self.tr.values()), 'listed',
             lambda: f'{self.what}: {list(self.atom.transitions.keys())} vs {[r.t.name for r in self.tr.values()]}')

    def check_subpairs(self):
        """C11/C12: sub-transitions exist exactly where coupled, and join what was asked for"""
        m, rng = self.m, self.rng
        ps = [p for p in self.pairs if p <= self.present]
        if not ps:
            return
        p = rng.choice([q for q in ps if q in self.tr] or ps) if rng.random() < 0.8 else rng.choice(ps)
        a, b = self.ends(p)
        r = self.tr.get(p)
        hp, lead = hf_pairs(self.spec.I, self.L[a], self.L[b])
        for F0, F1 in rng.sample(sorted(hp), min(2, len(hp))):
            rs = hp[F0, F1]
            need = must(rs, lead) if r else False
            zp = z_pairs(F0, F1, rs)
            m0, m1 = rng.choice(sorted(zp))
            zneed = (must(zp[m0, m1], 1 if 1 in rs else 2) if need else None if need is None and zp[m0, m1] else False)
            for sub0, sub1, need, depth in (((F0,), (F1,), need, 1), ((F0, m0), (F1, m1), zneed if r else False, 2)):
                key = (rng.choice(self.spell(a, sub0)), rng.choice(self.spell(b, sub1)))
                if rng.random() < 0.5:
                    key = key[::-1]
                s = self.get(key)
                m.ok(need is None or need == (s is not None), 'sub-exists',
                     lambda: f'{self.what}: {key!r} gives {s!r}, expected {"one" if need else "none"}')
                if s is None:
                    continue
                m.ok({id(s.E_1), id(s.E_2)} == {id(self.obj(a, sub0)), id(self.obj(b, sub1))}, 'sub-joins',
                     lambda: f'{self.what}: {key!r} gives {s.name}')
                top = s.parent if depth == 1 else s.parent.parent
                m.ok(r is not None and top is r.t, 'sub-parent', lambda: f'{self.what}: {s.name}')
                m.same(s.atom, self.atom, 'sub-atom', self.what)
                m.seen('history-sub')

    def check_exact(self):
        """C12: the sub-transitions of one transition, all of them"""
        m, rng = self.m, self.rng
        if not self.tr or rng.random() < 0.5:
            return
        p = rng.choice(list(self.tr))
        a, b = self.ends(p)
        t = self.tr[p].t
        hp, lead = hf_pairs(self.spec.I, self.L[a], self.L[b])
        kd = lib.pair_kinds(self.L[a], self.L[b])
        m.eq(tuple(map(bool, t.allowed_types)), kd, 'classified', t.name)
        got = {}
        for s in t.values():
            (i, x), (j, y) = self.ends_of(s)
            k = (x[0], y[0]) if i == a else (y[0], x[0])
            m.ok({i, j} == set(p), 'exact-joins', s.name)
            k = tuple(sorted(k)) if a == b else k
            m.ok(k not in got, 'exact-once', lambda: f'{self.what}: {s.name} twice')
            got[k] = s
        for k, rs in hp.items():
            if a == b and k != tuple(sorted(k)):
                continue
            need = must(rs, lead)
            m.ok(need is None or need == (k in got), 'exact-hf',
                 lambda: f'{self.what}: {t.name} {k}: {k in got}, ranks {rs}')
        m.seen('history-exact')
        if not got:
            return
        k = rng.choice(sorted(got))
        s = got[k]
        zp = z_pairs(*k, hp[k])
        inside = a == b and k[0] == k[1]
        have = set()
        for z in s.values():
            (i, x), (j, y) = self.ends_of(z)
            q = (x[1], y[1]) if (i, x[0]) == (a, k[0]) else (y[1], x[1])
            if inside:
                q = tuple(sorted(q))
            m.ok(q not in have, 'exact-once', lambda: f'{self.what}: {z.name} twice')
            have.add(q)
        for q, rs in zp.items():
            if inside and q != tuple(sorted(q)):
                continue
            need = must(rs, 1 if 1 in hp[k] else 2)
            m.ok(need is None or need == (q in have), 'exact-z', lambda: f'{self.what}: {s.name} {q}: {q in have}')

    def check_strength(self):
        """C13"""
        m, rng = self.m, self.rng
        if not self.tr:
            return
        p = rng.choice(list(self.tr))
        a, b = self.ends(p)
        r = self.tr[p]
        I, rk = self.spec.I, o.rank(lib.pair_kinds(self.L[a], self.L[b]))
        got = None if r.t.A is None else r.t.A.to('Hz').magnitude
        m.ok((got is None) == (r.A is None) and (got is None or abs(got - r.A) <= 1e-9 * r.A), 'A',
             lambda: f'{self.what}: {r.t.name} A {got!r}, expected {r.A!r}')
        for s in self.subs(p, rng.choice([1, 1, 2])):
            if r.A is None:
                m.ok(s.A is None, 'sub-A-none', lambda: f'{self.what}: {s.name} has A {s.A}')
                continue
            (i, x), (j, y) = self.ends_of(s)
            f = o.hf_strength(rk, I, self.L[i]['J'], x[0], self.L[j]['J'], y[0])
            hf = f
            if len(x) > 1:
                if not o.hf_allowed(rk, I, self.L[i]['J'], x[0], self.L[j]['J'], y[0]):
                    continue                # carried by the weaker multipole only
                g = o.z_strength(rk, x[0], x[1], y[0], y[1])
                f *= g
                hf = g
            got = s.A.to('Hz').magnitude
            m.ok(abs(got - r.A * f) <= 1e-9 * r.A, 'sub-A', lambda: f'{self.what}: {s.name} A {got!r}, expected {r.A * f!r}')
            m.ok(abs(s.rel_strength - hf) <= 1e-9, 'sub-strength',
                 lambda: f'{self.what}: {s.name} strength {s.rel_strength!r}, expected {hf!r}')
            m.seen('history-strength')

    def check_difference(self):
        """C15: frequencies are differences, splittings are kept"""
        m, tol = self.m, self.tol()
        for p, r in self.tr.items():
            a, b = self.ends(p)
            got = r.t.freq.to('Hz').magnitude
            m.ok(abs(got - abs(self.E(a) - self.E(b))) <= tol, 'difference',
                 lambda: f'{self.what}: {r.t.name} {got!r}, levels {abs(self.E(a) - self.E(b))!r} apart')
        if self.tr:
            p = self.rng.choice(list(self.tr))
            ss = self.subs(p, self.rng.choice([1, 2]))
            for s in self.rng.sample(ss, min(3, len(ss))):
                got, want = s.freq.to('Hz').magnitude, self.freq_of(s)
                m.ok(abs(got - want) <= 2 * tol, 'sub-difference', lambda: f'{self.what}: {s.name} {got!r}, expected {want!r}')
                m.seen('history-difference')
        i = self.some_level()
        if i is not None:
            sub = self.rsub(i)
            got = self.obj(i, sub).level.to('Hz').magnitude
            want = self.E(i) + self.shift(i, sub)
            m.ok(abs(got - want) <= tol, 'splitting', lambda: f'{self.what}: {self.name(i, sub)} at {got!r}, expected {want!r}')

    def check_coherent(self):
        """C16"""
        m, L, T = self.m, self.atom.levels, self.atom.transitions
        m.ok(sorted(L.keys()) == sorted(self.L[i]['name'] for i in self.present), 'levels',
             lambda: f'{self.what}: {list(L.keys())}')
        m.ok(sorted(map(id, L.values())) == sorted(id(self.lv[i]) for i in self.present), 'level-objects', self.what)
        m.ok(sorted(map(id, T.values())) == sorted(id(r.t) for r in self.tr.values()), 'transitions',
             lambda: f'{self.what}: {[t.name for t in T.values()]} vs {[r.t.name for r in self.tr.values()]}')
        m.ok(len(T) == len(self.tr) and len(L) == len(self.present), 'counts', self.what)
        m.ok(sorted(L.list_names()) == sorted(L.keys()), 'level-names', lambda: f'{self.what}: {L.list_names()}')
        pairs = [frozenset((r.t.E_1.name, r.t.E_2.name)) for r in self.tr.values()]
        for hide in (True, False):
            got = T.list_names(hide_self_transitions=hide)
            want = [p for p in pairs if len(p) == 2 or not hide]
            m.ok(sorted(map(sorted, map(set, got))) == sorted(map(sorted, want)), 'transition-names',
                 lambda: f'{self.what}: {got}, expected {want}')
        for k, t in zip(T.keys(), T.values()):
            m.ok(set(k) == {t.E_1.name, t.E_2.name}, 'own-name', self.what)
            m.ok(all(any(x is self.lv[i] for i in self.present) for x in (t.E_1, t.E_2)), 'joins-listed', self.what)
            m.same(t.atom, self.atom, 'transition-atom', self.what)
        for al, (i, sub) in self.lal.items():
            try:
                x = L[al]
            except KeyError:
                x = None
            m.ok(x is self.obj(i, sub), 'alias', lambda: f'{self.what}: {al!r} gives {x!r}, not {self.name(i, sub)}')
        # names that once led to something that has gone or was replaced lead nowhere, or to what is there now
        here = {id(self.lv[j]) for j in self.present}
        tops = {id(r.t) for r in self.tr.values()}
        for al in self.dead:
            if al not in self.lal:
                try:
                    x = L[al]
                except KeyError:
                    m.seen('dead-name')
                else:
                    m.ok(id(x.manifold) in here and L[x.name] is x, 'dead-level-name', lambda: f'{self.what}: {al!r} gives {x!r}')
            if al not in self.tal:
                t = self.get(al)
                top = t
                while top is not None and top.parent is not None:
                    top = top.parent
                m.ok(t is None or id(top) in tops and T[t.E_1, t.E_2] is t, 'dead-transition-name',
                     lambda: f'{self.what}: {al!r} gives {t!r}')
        i = self.some_level()
        if i is not None:
            sub = self.rsub(i, 2)
            m.ok(self.name(i, sub) in self.lal or L[self.name(i, sub)] is self.obj(i, sub), 'sublevel', self.what)
            m.ok(all(self.obj(i, sub[:k]).atom is self.atom for k in range(3)), 'sublevel-atom', self.what)
        # the graphs that level and transition listings (and diagrams) are made of name the present objects only
        for k, graph in enumerate((L.model, L.hf_model, L.z_model)):
            for j in self.present:
                names = {self.name(j, sub[:k]): self.obj(j, sub[:k])
                         for sub in [self.rsub(j, 2)]}
                for name, x in names.items():
                    node = graph.nodes.get(name, {}).get('level')
                    m.ok(node is x, 'node', lambda: f'{self.what}: {name} is {node!r} in the graph')
            here = {id(self.lv[j]) for j in self.present}
            for name, x in graph.nodes(data='level'):
                m.ok(x is not None and x.name == name and id(x.manifold) in here, 'stray-node',
                     lambda: f'{self.what}: {name} ({x!r}) is still in the graph')
            for u, v, t in graph.edges(data='transition'):
                ends = graph.nodes[u].get('level'), graph.nodes[v].get('level')
                m.ok(t is not None and {t.E_1.name, t.E_2.name} == {u, v} and any(t.E_1 is x for x in ends)
                     and any(t.E_2 is x for x in ends), 'edge', lambda: f'{self.what}: {u}, {v}: {t!r}')

    def check_rates(self):
        """C18"""
        m, rng, a = self.m, self.rng, self.atom
        if not self.far() or not all(len(p) == 1 or self.ordered(p) for p in self.tr):
            return
        i = self.some_level()
        if i is None:
            return
        down = {}
        for p, r in self.tr.items():
            if i in p and len(p) == 2:
                j = next(iter(p - {i}))
                if self.E(j) < self.E(i):
                    down[self.L[j]['name']] = r.A
        key = rng.choice([self.name(i)] + [k for k, v in self.lal.items() if v == (i, ())])
        if self.name(i) in self.lal:
            return
        if any(v is None for v in down.values()):
            m.raises(ValueError, lambda: a.compute_branching_ratios(key), 'missing-A', self.what)
            m.seen('history-missing')
            return
        tot = sum(down.values())
        got = a.compute_branching_ratios(key)
        m.ok(got.keys() == down.keys() and all(abs(got[k] - down[k] / tot) <= 1e-9 for k in got), 'ratios',
             lambda: f'{self.what}: {key!r}: {got}, A {down}')
        t = a.state_lifetime(key).to('s').magnitude
        m.ok(t == float('inf') if not down else abs(t * tot / (2 * 3.141592653589793) - 1) <= 1e-9, 'lifetime',
             lambda: f'{self.what}: {key!r}: {t}, A {down}')
        m.seen('history-rates')
        if self.crossed:
            return                            # which sublevel is the upper one is decided when a line is first looked at
        sub = self.rsub(i, rng.choice([1, 2]))
        want = {}
        for p, r in self.tr.items():
            if i in p and len(p) == 2:
                j = next(iter(p - {i}))
                if self.E(j) > self.E(i):
                    continue
                kd = lib.pair_kinds(self.L[i], self.L[j])
                if kd[1] and kd[2]:
                    return                    # lines carried by the weaker multipole only: not claimed
                rk, I = o.rank(kd), self.spec.I
                Ji, Jj = self.L[i]['J'], self.L[j]['J']
                for F in Fs(I, Jj):
                    if not o.hf_allowed(rk, I, Ji, sub[0], Jj, F):
                        continue
                    h = r.A * o.hf_strength(rk, I, Ji, sub[0], Jj, F)
                    if len(sub) == 1:
                        want[self.name(j, (F,))] = h
                    else:
                        for M in Ms(F):
                            if o.z_allowed(rk, sub[0], sub[1], F, M):
                                want[self.name(j, (F, M))] = h * o.z_strength(rk, sub[0], sub[1], F, M)
        got = a.compute_branching_ratios(self.name(i, sub))
        tot = sum(want.values())
        m.ok(got.keys() == want.keys() and all(abs(got[k] - want[k] / tot) <= 1e-9 for k in got), 'sub-ratios',
             lambda: f'{self.what}: {self.name(i, sub)}: {got}, expected {want}')
        m.seen('history-sub-rates')


def history(aspects, cats=(), steps=(16, 32), extra=(), when=None, **kw):
    """a scenario: random histories with these monitors on; `extra` operations are drawn more often"""
    def run(rng, m):
        w = World(rng, m, aspects, cats, **kw)
        w.ops = w.ops + ['readd-t', 'joined-t'] + list(extra)
        w.when = when
        w.run(rng.randint(*steps))
        m.seen('histories')
    return run
