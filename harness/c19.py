import os
import pickle
import random
import shutil
import tempfile
import threading

import c17
import elsewhere
import lib
from engine import Violation
from lib import Fs, Ms, Spec, fk, mk
from machine import history

ID = 'C19'
RULE = ('Each case builds an atom by a random script of additions and edits, with random parts of it never read, reads or '
        'fully populates some of it, saves it under a random path, loads it and compares complete snapshots of all '
        'answers, object identities inside, and the effect of further edits on both, in the same process and in fresh ones; or injects something that cannot be '
        'serialised and compares the bytes of an existing file; or offers files that are not atoms.')
ASSUMPTIONS = ['Files are written whole: a crash of the machine in the middle of a write is not considered.',
               'All files live in a scratch directory that is removed.']


def scratch():
    base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='c19-', dir=base)


def view(atom):
    r = c17.Run.__new__(c17.Run)
    r.atom, r.levels, r.seen = atom, sorted(atom.levels.values(), key=lambda e: e.name), {}
    return r


def extra(atom):
    """answers that c17's snapshot leaves out"""
    out = {'B': float(atom.B.to('G').magnitude), 'I': float(atom.I), 'name': atom.name, 'str': (str(atom), repr(atom)),
           'order': [atom.levels[i].name for i in range(len(atom.levels))], 'listing': atom.levels.list_names(),
           'tlisting': [tuple(k) for k in atom.transitions.list_names(hide_self_transitions=False)]}
    for e in atom.levels.values():
        t = e.term
        out['X', e.name] = (float(e.hfA_Hz), float(e.hfB_Hz), float(e.hfC_Hz), t.J_frac, t.parity, t.term_name, str(e),
                            [(x.conf, x.term, float(x.percentage)) for x in t.terms])
    for t in atom.transitions.values():
        out['Y', tuple(sorted((t.E_1.name, t.E_2.name)))] = (t.E_1.name, t.E_2.name, t.name, str(t), repr(t))
    return out


def snap(rng, atom):
    s = dict(view(atom).snapshot(rng.randrange(3)))
    s.update(extra(atom))
    return s


def same(m, a, b, key, what):
    m.ok(a.keys() == b.keys(), key, lambda: f'{what}: different questions: {list(set(map(str, a)) ^ set(map(str, b)))[:4]}')
    diff = [k for k in a if not c17.equal(a[k], b[k])]
    m.ok(not diff, key, lambda: f'{what}: {[(k, a[k], b[k]) for k in diff[:2]]}')
    m.seen('answers', len(a))


def objects(atom):
    """every object of the atom that can be reached, by name; checks that each is reached as one object"""
    out = {}
    for e in atom.levels.values():
        out['E', e.name] = e
        for h in e.values():
            out['H', h.name] = h
            for z in h.values():
                out['Z', z.name] = z
    for t in atom.transitions.values():
        out['T', frozenset((t.E_1.name, t.E_2.name))] = t
        for s in t.values():
            out['S', frozenset((s.E_1.name, s.E_2.name))] = s
            for z in s.values():
                out['P', frozenset((z.E_1.name, z.E_2.name))] = z
    return out


def identities(m, atom, what):
    objs = objects(atom)
    for (k, n), x in objs.items():
        if k in 'EHZ':
            m.ok(x.atom is atom and atom.levels[n] is x, 'identity', lambda: f'{what}: {n}')
            if k != 'E':
                m.ok(x.parent[n.rsplit(' ', 1)[1]] is x and x.manifold is (x.parent if k == 'H' else x.parent.parent),
                     'identity', lambda: f'{what}: parent of {n}')
        else:
            for e in (x.E_1, x.E_2):
                m.ok(objs[{'T': 'E', 'S': 'H', 'P': 'Z'}[k], e.name] is e, 'identity', lambda: f'{what}: end of {x.name}')
            m.ok(atom.transitions[x.E_1.name, x.E_2.name] is x and x.atom is atom, 'identity', lambda: f'{what}: {x.name}')
            m.ok(x.E_upper in (x.E_1, x.E_2) and x.E_lower in (x.E_1, x.E_2), 'identity', lambda: f'{what}: {x.name}')
    for al, x in atom.levels.aliases.items():
        m.ok(x.atom is atom and (x.parent is None or any(x is y for y in objs.values()) or x.alias == al), 'alias-identity',
             lambda: f'{what}: {al}')
        m.ok(any(x is y for y in objs.values()) or x.name not in atom.levels.keys(), 'alias-identity', al)
    for al, x in atom.transitions.aliases.items():
        m.ok(any(x is y for y in objs.values()), 'alias-identity', lambda: f'{what}: {al}')
    return objs


def build(rng, m, big=False):
    spec = Spec(rng, nlev=(6, 12) if big else (2, 4), I=[0, 1, 2, 3], Jmax=4, aliases=0.0, hf=0.7, B=0.6,
                energies=lambda r, i: (i + 1) * 1.5e14 + r.uniform(0, 5e13))
    rng.shuffle(spec.levels)
    for l in spec.levels:
        for k in ('A', 'Bq', 'C'):
            l[k] = max(-1e9, min(1e9, l[k]))
    spec.B = max(-1e3, min(1e3, spec.B))
    st = c17.script(rng, spec)
    run = c17.Run(rng, spec, 0)
    m.op('script', spec.I, [l['name'] for l in spec.levels], st)
    p = rng.choice([0, 0, 0.4, 1])
    for s in st:
        run.step(s)
        if rng.random() < p:
            run.read(rng, m)
    if rng.random() < 0.3:
        run.eager()
    for t in list(run.atom.transitions.values()):
        # a deep alias, and structure inside a level
        if rng.random() < 0.2 and len(t):
            rng.choice(t.subtransitions()).alias = f'sub{rng.randrange(9)}'
        if t.E_1 is not t.E_2 and rng.random() < 0.2:
            run.atom.levels[f'{t.E_1.name} {fk(rng.choice(Fs(spec.I, int(2 * t.E_1.term.J))))}'].alias = 'hfalias'
    return spec, run


def filename(rng, d):
    stem = rng.choice(['a', 'Yb171', 'x.y', 'my atom', 'v1.0', 'atom', 'a.atom.bak', 'é', 'x.pickle', '.hidden', 'n.ATOM',
                       'q.atomic', 'zatom'])
    sub = rng.choice(['', '', 'd.1', 'runs.atom'])
    if sub:
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    given = os.path.join(d, sub, stem + rng.choice(['', '', '.atom']))
    return given, given if given.endswith('.atom') else given + '.atom'


def files(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)


def more(rng, m, spec, runs, n):
    """the same further edits on several atoms, by name"""
    import atomtoolkit as tk
    for _ in range(n):
        names = sorted(runs[0].levels.keys())
        if not names:
            return
        k = rng.choice(['hf', 'lande', 'B', 'A', 'E', 'sub', 'alias', 'freq', 'del', 'new', 'gF'])
        nm = rng.choice(names)
        v, v2, c = lib.signed(rng, 1e5, 1e9), rng.random(), rng.choice('ABC')
        J = int(2 * runs[0].levels[nm].term.J)
        F = rng.choice(Fs(int(2 * runs[0].I), J))
        ts = sorted(tuple(sorted(x)) for x in runs[0].transitions.keys())
        tn = rng.choice(ts) if ts else None
        m.op('edit', k, nm, v)
        for a in runs:
            e = a.levels[nm]
            if k == 'hf':
                setattr(e, 'hf' + c, v * tk.Hz)
            elif k == 'lande':
                e.lande = v / 1e8
            elif k == 'gF':
                e[fk(F)].gF = v / 1e8
            elif k == 'B':
                a.B = v * 1e-6 * tk.G
            elif k == 'E':
                e.level = e.level + v * tk.Hz
            elif k == 'sub':
                e[fk(F)].level = e[fk(F)].level + v * tk.Hz
            elif k == 'alias':
                e.alias = 'later'
            elif k == 'A' and tn:
                a.transitions[tn].A = abs(v) * tk.Hz
            elif k == 'freq' and tn and tn[0] != tn[1] and not any(t.set_freq is not None for t in a.transitions.values()):
                t = a.transitions[tn]
                t.freq = t.freq + v * tk.Hz
            elif k == 'del' and tn and v2 < 0.5:
                del a.transitions[tn]
            elif k == 'new':
                from atomtoolkit.atom import EnergyLevel
                from atomtoolkit.term import Term
                nn = '99s 2S1/2' if J % 2 else '99s 1S0'
                if nn not in a.levels.keys():
                    a.add_level(EnergyLevel(Term('99s', '2S' if J % 2 else '1S', (J % 2) / 2), 3e15 * tk.Hz, lande=1.5,
                                            hfA=abs(v) * tk.Hz))


def roundtrip(rng, m):
    from atomtoolkit.atom import Atom
    spec, run = build(rng, m, rng.random() < 0.15)
    atom = run.atom
    lazy = rng.random() < 0.6               # saved without having been looked at completely
    before = None if lazy else snap(rng, atom)
    d = scratch()
    try:
        given, path = filename(rng, d)
        m.op('save', os.path.relpath(given, d))
        had = files(d)
        if rng.random() < 0.3:
            with open(path, 'wb') as f:
                f.write(b'older and longer' * 5000)
            m.seen('overwritten')
        atom.save(given)
        m.eq(files(d), sorted(set(had) | {path}), 'path', f'saving as {os.path.relpath(given, d)}')
        new = Atom.load(path)
        m.ok(isinstance(new, Atom) and new is not atom, 'loaded', repr(new))
        if lazy and rng.random() < 0.5:
            # the loaded atom is asked first
            s1, s0 = snap(rng, new), snap(rng, atom)
        else:
            s0, s1 = snap(rng, atom), snap(rng, new)
        if before:
            same(m, before, s0, 'save-changes-nothing', 'original after saving')
        same(m, s0, s1, 'loaded-answers', 'loaded atom')
        oa, ob = identities(m, atom, 'original'), identities(m, new, 'loaded')
        m.ok(not {id(x) for x in oa.values()} & {id(x) for x in ob.values()}, 'shared', 'atoms share objects')
        m.seen('objects', len(ob))
        # edits to one do not reach the other, and have the same effect on both
        st = rng.getstate()
        more(rng, m, spec, [new], 3)
        same(m, s0, snap(rng, atom), 'independent', 'original after editing the loaded atom')
        s2 = snap(rng, new)
        rng.setstate(st)
        more(rng, m, spec, [atom], 3)
        same(m, s2, snap(rng, atom), 'edits-alike', 'the same edits on the original')
        identities(m, new, 'edited')
        # a second generation
        given, path = filename(rng, d)
        new.save(given)
        third = Atom.load(path)
        same(m, s2, snap(rng, third), 'loaded-answers', 'second generation')
        identities(m, third, 'second generation')
        m.state(len(s2), lazy)
    finally:
        shutil.rmtree(d)


def poison(rng):
    k = rng.randrange(4)
    return [lambda B: 155.3 * B ** 2, threading.Lock(), (x for x in ()), open(os.devnull)][k]


def failing(rng, m):
    from atomtoolkit.atom import Atom
    spec, run = build(rng, m)
    atom = run.atom
    d = scratch()
    bad = poison(rng)
    try:
        given, path = filename(rng, d)
        old = rng.choice(['atom', 'bytes', 'itself'])
        if old == 'bytes':
            with open(path, 'wb') as f:
                f.write(rng.randbytes(rng.choice([0, 1, 100, 100000])))
        elif old == 'atom':
            build(rng, m)[1].atom.save(path)
        else:
            atom.save(path)
        with open(path, 'rb') as f:
            data = f.read()
        run.eager() if rng.random() < 0.5 else None
        targets = [atom] + list(atom.levels.values()) + list(atom.transitions.values())
        for e in list(atom.levels.values())[:2]:
            targets += e.sublevels() + e.sublevels()[-1].sublevels()[-2:] + [e.term]
        for t in list(atom.transitions.values())[:2]:
            targets += t.subtransitions()[-2:]
        x = rng.choice(targets) if rng.random() < 0.6 else targets[-1]
        x.quadratic_zeeman_function = bad
        m.op('poison', type(bad).__name__, type(x).__name__)
        try:
            atom.save(given)
            ok = True
        except Exception:
            ok = False
        if ok:
            # it could be serialised after all: then it must load
            m.ok(isinstance(Atom.load(path), Atom), 'saved-unserialisable', type(bad).__name__)
            m.seen('survived')
            return
        m.seen('failed-saves')
        with open(path, 'rb') as f:
            now = f.read()
        m.ok(now == data, 'file-kept', lambda: f'{old} file of {len(data)} bytes now has {len(now)}')
        if old != 'bytes':
            m.ok(isinstance(Atom.load(path), Atom), 'file-kept', 'no longer loads')
        # once repaired, it saves
        del x.quadratic_zeeman_function
        atom.save(given)
        same(m, snap(rng, atom), snap(rng, Atom.load(path)), 'loaded-answers', 'after a failed save')
    finally:
        if hasattr(bad, 'close'):
            bad.close()
        shutil.rmtree(d)


def foreign(rng, m):
    import atomtoolkit as tk
    from atomtoolkit.atom import Atom
    spec, run = build(rng, m)
    atom = run.atom
    e = next(iter(run.levels))
    d = scratch()
    try:
        path = os.path.join(d, 'f.atom')
        others = [{}, [], None, 3, 'Atom', {'atom': atom}, [atom], (atom,), e, e.term, atom.levels, 1 * tk.Hz,
                  Spec, atom._levelsModel if hasattr(atom, '_levelsModel') else None, Atom]
        for x in rng.sample(others, 5):
            m.op('foreign', type(x).__name__)
            with open(path, 'wb') as f:
                pickle.dump(x, f)
            m.raises(Exception, lambda: Atom.load(path), 'foreign', f'pickle of a {type(x).__name__}')
        atom.save(path)
        with open(path, 'rb') as f:
            data = f.read()
        cuts = [0, 1, 2, len(data) - 1, len(data) // 2] + [rng.randrange(len(data)) for _ in range(4)]
        for c in cuts:
            with open(path, 'wb') as f:
                f.write(data[:c])
            m.raises(Exception, lambda: Atom.load(path), 'truncated', f'{c} of {len(data)} bytes')
            m.seen('truncations')
        for junk in (b'not a pickle', b'\x80', b'conf,term\n', bytes(rng.choices(b'abdfghjklmnopqrst', k=50))):
            with open(path, 'wb') as f:
                f.write(junk)
            m.raises(Exception, lambda: Atom.load(path), 'junk', repr(junk))
        m.raises(OSError, lambda: Atom.load(os.path.join(d, 'absent.atom')), 'absent', 'no such file')
        m.raises(OSError, lambda: atom.save(os.path.join(d, 'nodir', 'x')), 'no-directory', 'no such directory')
    finally:
        shutil.rmtree(d)


def elsewhere_(rng, m):
    """saved here, loaded, edited and saved in a fresh process, loaded here again"""
    from atomtoolkit.atom import Atom
    d = scratch()
    try:
        jobs, mine = [], []
        for i in range(6):
            spec, run = build(rng, m, rng.random() < 0.1)
            seed, n = rng.randrange(10 ** 9), rng.randrange(0, 5)
            early = snap(random.Random(seed), run.atom) if rng.random() < 0.5 else None
            a, b = os.path.join(d, f'a{i}.atom'), os.path.join(d, f'b{i}.atom')
            run.atom.save(a)
            jobs.append(('load', (a, seed, n, b)))
            mine.append((run.atom, seed, n, early, spec))
        there = elsewhere.ask(d, jobs, rng.randrange(1, 10 ** 6), d)
        m.ok(isinstance(there, list), 'elsewhere', there)
        for i, ((atom, seed, n, early, spec), (s0, s1)) in enumerate(zip(mine, there)):
            here = snap(random.Random(seed), atom)
            if early:
                same(m, early, here, 'save-changes-nothing', 'original after saving')
            same(m, here, s0, 'elsewhere', 'loaded in another process')
            more(random.Random(seed + 1), m, spec, [atom], n)
            here = snap(random.Random(seed), atom)
            same(m, here, s1, 'elsewhere', 'edited in another process')
            back = Atom.load(os.path.join(d, f'b{i}.atom'))
            same(m, here, snap(random.Random(seed), back), 'elsewhere', 'back from another process')
            identities(m, back, 'back')
            m.seen('elsewhere')
    finally:
        shutil.rmtree(d)


SCENARIOS = {'elsewhere': (14, 120, elsewhere_), 'roundtrip': (150, 1500, roundtrip), 'failing': (90, 700, failing), 'foreign': (40, 300, foreign),
             'history': (160, 2500, history(['struct', 'zeeman', 'directory', 'pairs', 'subpairs', 'strength', 'difference', 'coherent', 'rates'], ('saveload',), extra=('saveload',) * 4, when=('saveload',)))}
REQUIRED = {'elsewhere': 60, 'answers': 20000, 'objects': 5000, 'failed-saves': 50, 'truncations': 200, 'overwritten': 20,
            'check:file-kept': 80, 'check:foreign': 100,
            'op-saveload': 120}
