import numpy as np

import lib
import oracle as o
from oracle import LETTERS, tri, trange

ID = 'C04'
RULE = ('Each case draws ancestor quantum numbers and converts a whole basis (every Jc,Jo / Jc,K / K of one J) to LS, '
        'comparing each amplitude with an exact recoupling coefficient and the basis with an orthonormal matrix; or '
        'renders one term in NIST notation and reads its LS expansion.')
ASSUMPTIONS = ['Overall signs of individual basis states and of individual LS states are conventions and not compared.']


def table(m, arr, want, what):
    arr = np.asarray(arr)
    m.ok(arr.ndim == 2 and arr.shape[0] == 3, 'shape', what)
    got = {}
    for L, S, a in zip(*arr):
        k = (lib.dbl(L), lib.dbl(S))
        m.ok(k not in got, 'once', lambda: f'{what}: (L,S)={k} listed twice')
        got[k] = float(a)
    for k, w in want.items():
        m.ok(k in got or abs(w) < 1e-12, 'complete', lambda: f'{what}: (L,S)/2={k} missing')
    for k, a in got.items():
        m.ok(k in want, 'in-range', lambda: f'{what}: (L,S)/2={k} is not in the triangle range')
        m.ok(abs(abs(a) - abs(want[k])) < 1e-9, 'amplitude', lambda: f'{what} {k}: {a} vs exact {want[k]}')
    m.close(sum(a * a for a in got.values()), 1.0, 'norm', what, abs_=1e-9)
    return got


def orthonormal(m, rows, what):
    keys = sorted({k for r in rows for k in r})
    M = np.array([[r.get(k, 0.0) for k in keys] for r in rows])
    G = M @ M.T
    m.ok(np.abs(G - np.eye(len(rows))).max() < 1e-9, 'orthonormal', lambda: f'{what}: Gram matrix {G.round(6).tolist()}')
    cols = [i for i, k in enumerate(keys) if np.abs(M[:, i]).max() > 1e-12]
    m.eq(len(cols), len(rows), 'complete-basis', what)
    m.state(what)


def args(rng, small):
    lc, lo = 2 * rng.randrange(0, 4 if small else 6), 2 * rng.randrange(0, 4 if small else 6)
    sc, so = rng.randrange(0, 4 if small else 6), rng.randrange(0, 3 if small else 6)
    return lc, sc, lo, so


def jj(rng, m):
    from atomtoolkit.transition_strengths import JJ_to_LS
    lc, sc, lo, so = args(rng, True)
    J = rng.randrange((sc + so) % 2, min(lc + lo + sc + so, 12) + 1, 2)
    rows = []
    for jc in trange(lc, sc):
        for jo in trange(lo, so):
            if tri(jc, jo, J):
                m.op('jj', J, jc, jo, lc, sc, lo, so)
                rows.append(table(m, JJ_to_LS(*[x / 2 for x in (J, jc, jo, lc, sc, lo, so)]),
                                  o.jj_ls(J, jc, jo, lc, sc, lo, so), f'JJ {J},{jc},{jo},{lc},{sc},{lo},{so}'))
                m.seen('jj')
    if not rows:
        raise lib_skip()
    orthonormal(m, rows, f'JJ basis J={J} {lc},{sc},{lo},{so}')


def lib_skip():
    from engine import Skip
    return Skip()


def jk(rng, m):
    from atomtoolkit.transition_strengths import JK_to_LS
    lc, sc, lo, so = args(rng, False)
    J = rng.randrange((sc + so) % 2, min(lc + lo + sc + so, 16) + 1, 2)
    rows = []
    for jc in trange(lc, sc):
        for K in trange(jc, lo):
            if tri(K, so, J):
                m.op('jk', J, jc, K, lc, sc, lo, so)
                rows.append(table(m, JK_to_LS(*[x / 2 for x in (J, jc, K, lc, sc, lo, so)]),
                                  o.jk_ls(J, jc, K, lc, sc, lo, so), f'JK {J},{jc},{K},{lc},{sc},{lo},{so}'))
                m.seen('jk')
    if not rows:
        raise lib_skip()
    orthonormal(m, rows, f'JK basis J={J} {lc},{sc},{lo},{so}')


def lk(rng, m):
    from atomtoolkit.transition_strengths import LK_to_LS
    L, sc, so = 2 * rng.randrange(0, 9), rng.randrange(0, 8), rng.randrange(0, 6)
    J = rng.randrange((sc + so) % 2, L + sc + so + 1, 2)
    rows = []
    for K in trange(L, sc):
        if tri(K, so, J):
            m.op('lk', J, L, K, sc, so)
            rows.append(table(m, LK_to_LS(*[x / 2 for x in (J, L, K, sc, so)]), o.lk_ls(J, L, K, sc, so),
                              f'LK {J},{L},{K},{sc},{so}'))
            m.seen('lk')
    if not rows:
        raise lib_skip()
    orthonormal(m, rows, f'LK basis J={J} {L},{sc},{so}')


def readable(rng, m):
    from atomtoolkit import util
    for _ in range(4):
        kind = rng.choice(['LS', 'JK', 'LK', 'JJ'])
        t = lib.gen_JJ(rng, False, rng.choice(['CC', 'T'])) if kind == 'JJ' else lib.GENS[kind](rng, False)
        q, J = t['q'], t['J']
        if kind == 'JJ' and max(q['sc'] + q['so'], q['lc'] + q['lo']) > 12:
            continue
        m.op('term', t['conf'], t['term'], J)
        got = util.term_to_LS(t['conf'], t['term'], J / 2)
        what = f'{t["conf"]} {t["term"]} J={J}/2'
        if kind == 'LS':
            m.eq([tuple(x) for x in got], [(t['term'], 100.0)], 'ls-itself', what)
            continue
        if kind == 'JJ':
            want = o.jj_ls(J, q['jc'], q['jo'], q['lc'], q['sc'], q['lo'], q['so'])
            raw = util.readable_JJ_to_LS(*[x / 2 for x in (J, q['jc'], q['jo'], q['lc'], q['sc'], q['lo'], q['so'])])
        elif kind == 'JK':
            want = o.jk_ls(J, q['jc'], q['k'], q['lc'], q['sc'], q['lo'], q['so'])
            raw = util.readable_JK_to_LS(*[x / 2 for x in (J, q['jc'], q['k'], q['lc'], q['sc'], q['lo'], q['so'])])
        else:
            want = o.lk_ls(J, q['l'], q['k'], q['sc'], q['so'])
            raw = util.readable_LK_to_LS(*[x / 2 for x in (J, q['l'], q['k'], q['sc'], q['so'])])
        m.eq(got, raw, 'readable-same', what)
        d = {}
        for lab, pc in got:
            m.ok(lab not in d, 'readable-once', lambda: f'{what}: {lab} twice')
            d[lab] = pc
        w = {f'{S + 1}{LETTERS[L // 2]}': 100 * a * a for (L, S), a in want.items()}
        for lab, pc in d.items():
            m.ok(lab in w and abs(pc - w[lab]) < 0.0051, 'readable-percent', lambda: f'{what}: {lab} {pc} vs {w.get(lab)}')
        for lab, pc in w.items():
            m.ok(pc < 1e-9 or lab in d, 'readable-complete', lambda: f'{what}: {lab} ({pc}%) missing')
        m.ok(abs(sum(d.values()) - 100) < 0.006 * max(1, len(d)), 'readable-sum', what)
        m.seen('readable:' + kind)


SCENARIOS = {'jj': (240, 1600, jj), 'jk': (320, 3000, jk), 'lk': (800, 6000, lk), 'readable': (640, 6000, readable)}
REQUIRED = {'jj': 80, 'jk': 500, 'lk': 500, 'readable:JJ': 100, 'readable:JK': 100, 'readable:LK': 100,
            'check:ls-itself': 100}
