import lib
from lib import num, GENS

ID = 'C01'
RULE = ('Each case renders 25 random terms of one notation (LS, JJ, J1K, LK; one or two ancestors, dotted or not, '
        'starred or not, numbers spelled as int, float or fraction) from quantum numbers and reads them back.')
ASSUMPTIONS = ['The grammar of the generator is that of the NIST ASD level tables and of the library\'s docstrings.',
               'The spin attributed to a lower-case single electron in JJ notation is not checked.']
NAMES = ['lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k']


def check_nums(m, got, want, what):
    for n, g in zip(NAMES, got):
        w = want.get(n)
        if w == '?':
            continue
        if w is None:
            m.ok(g is None, 'absent-number', lambda: f'{what}: {n} should be absent, got {g!r}')
        else:
            m.ok(g is not None and g == w / 2, 'quantum-number', lambda: f'{what}: {n}={g!r}, expected {w / 2}')


def scen(kind):
    def run(rng, m):
        from atomtoolkit import util
        from atomtoolkit.term import Term, MultiTerm
        for _ in range(25):
            t = GENS[kind](rng, big=rng.random() < 0.7)
            what = f'{t["conf"]} | {t["term"]} J={t["J"]}/2'
            F = M = None
            if rng.random() < 0.4:
                F = rng.randrange(0, 16)
                M = rng.choice(range(-F, F + 1, 2)) if rng.random() < 0.6 else None
            m.op('term', t['conf'], t['term'], t['J'], F, M)
            m.state(t['coupling'], t.get('form'), tuple(sorted((k, v) for k, v in t['q'].items() if v is not None and v != '?')))
            m.eq(util.get_term_coupling(t['term']), t['coupling'], 'coupling', what)
            check_nums(m, util.get_quantum_nums(t['conf'], t['term']), t['q'], what)
            x = Term(t['conf'], t['term'], num(rng, t['J']), F=num(rng, F), mF=num(rng, M))
            for y in (x, MultiTerm(x)):
                m.eq(y.coupling, t['coupling'], 'coupling', what)
                check_nums(m, y.quantum_nums, t['q'], what)
                check_nums(m, [getattr(y, n) for n in NAMES], t['q'], what)
                m.eq(y.parity, t['par'], 'parity', what)
                m.eq(y.J, t['J'] / 2, 'J', what)
                m.eq(y.F, None if F is None else F / 2, 'F', what)
                m.eq(y.mF, None if M is None else M / 2, 'mF', what)
    return run


SCENARIOS = {k: (800, 12000, scen(k)) for k in GENS}
REQUIRED = {'check:quantum-number': 10000, 'check:absent-number': 10000, 'check:parity': 5000}
