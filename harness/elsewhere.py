"""the same questions in a fresh interpreter with its own string hashes, module state and working directory"""
import os
import pickle
import random
import subprocess
import sys
import warnings


def ask(d, jobs, hashseed, cwd):
    """run the jobs (function name, arguments) of this module in another process; returns their results"""
    src, dst = os.path.join(d, 'jobs'), os.path.join(d, 'results')
    with open(src, 'wb') as f:
        pickle.dump(jobs, f)
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    r = subprocess.run([sys.executable, '-B', os.path.abspath(__file__), src, dst], cwd=cwd, env=env, text=True,
                       capture_output=True)
    if r.returncode:
        return (r.stderr.strip().splitlines() or ['no message'])[-1]
    with open(dst, 'rb') as f:
        return pickle.load(f)


def load(path, seed, edits, again):
    """load, answer, edit, answer, save"""
    import c19
    import engine
    from atomtoolkit.atom import Atom
    m = engine.Mon()
    a = Atom.load(path)
    s0 = c19.snap(random.Random(seed), a)
    c19.identities(m, a, 'loaded elsewhere')
    c19.more(random.Random(seed + 1), m, None, [a], edits)
    s1 = c19.snap(random.Random(seed), a)
    c19.identities(m, a, 'edited elsewhere')
    a.save(again)
    return s0, s1


def build(seed, mode):
    """build and edit by a script, answer"""
    import c17
    import engine
    rng = random.Random(seed)
    spec, st = c17.plan(rng)
    run = c17.Run(rng, spec, mode)
    m = engine.Mon()
    for s in st:
        run.step(s)
        if mode == 'eager':
            run.eager()
        elif mode == 'read':
            run.read(rng, m)
    return run.snapshot(seed)


def main():
    import engine
    sys.path.insert(0, engine.REPO)
    with open(sys.argv[1], 'rb') as f:
        jobs = pickle.load(f)
    warnings.simplefilter('ignore')
    out = [globals()[name](*args) for name, args in jobs]
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(out, f)


if __name__ == '__main__':
    main()
