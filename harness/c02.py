import lib
from lib import num
from oracle import LETTERS, frac

ID = 'C02'
RULE = ('Cases draw families of terms that differ from each other in one field (configuration, symbol, J, F, mF, '
        'spelling of numbers) or mixtures of 1-6 terms, and compare names, equality, copies and attribute access '
        'with a record-of-fields model.')
ASSUMPTIONS = ['J, F, mF up to 21/2; terms of one mixture with equal percentages may come in any order.']


def mkterm(rng, d, **kw):
    from atomtoolkit.term import Term
    args = {}
    if d['F'] is not None:
        args['F'] = num(rng, d['F'])
    if d['M'] is not None:
        args['mF'] = num(rng, d['M'])
    return Term(d['conf'], d['term'], num(rng, d['J']), **args, **kw)


def want_name(d):
    tn = f'{d["term"]}{frac(d["J"])}'
    short = tn
    if d['F'] is not None:
        tn += f' F={frac(d["F"])}'
        short = f'F={frac(d["F"])}'
    if d['M'] is not None:
        tn += f' mF={frac(d["M"])}'
        short = f'mF={frac(d["M"])}'
    return f'{d["conf"]} {tn}', tn, short


def key(d):
    return d['conf'], d['term'], d['J'], d['F'], d['M']


def draw(rng):
    t = lib.gen_any(rng, big=False)
    t['J'] = rng.randrange(0, 22) if rng.random() < .3 else t['J']
    t['F'] = rng.randrange(0, 22) if rng.random() < .6 else None
    t['M'] = rng.choice(range(-t['F'], t['F'] + 1, 2)) if t['F'] is not None and rng.random() < .6 else None
    return t


def vary(rng, d):
    e = dict(d)
    c = rng.randrange(7)
    if c == 0:
        e['J'] = d['J'] + rng.choice([2, 1, 4])
    elif c == 1 and d['F'] is not None:
        e['F'], e['M'] = d['F'] + 2, d['M']
    elif c == 2 and d['M'] is not None:
        e['M'] = -d['M'] if d['M'] else 2
    elif c == 3:
        e['conf'] = '2s.' + d['conf']
    elif c == 4:
        e['term'] = d['term'][:-1] if d['term'].endswith('*') else d['term'] + '*'
    elif c == 5 and d['M'] is not None:
        e['M'] = None
    elif c == 6 and d['F'] is not None:
        e['F'] = e['M'] = None
    return e


def observe(m, x, d, what=''):
    n, tn, short = want_name(d)
    m.eq(x.name, n, 'name', what)
    m.eq(x.term_name, tn, 'term-name', what)
    m.eq(x.short_name, short, 'short-name', what)
    m.eq((x.conf, x.term), (d['conf'], d['term']), 'fields', what)
    m.eq((x.J_frac, x.F_frac, x.mF_frac),
         (frac(d['J']), None if d['F'] is None else frac(d['F']), None if d['M'] is None else frac(d['M'])), 'fractions')
    m.eq((x.J, x.F, x.mF), tuple(None if v is None else v / 2 for v in (d['J'], d['F'], d['M'])), 'numbers', what)


def equality(rng, m):
    from atomtoolkit.term import MultiTerm
    base = draw(rng)
    fam = [base] + [vary(rng, base) for _ in range(6)]
    fam += [vary(rng, rng.choice(fam)) for _ in range(3)]
    objs = []
    for d in fam:
        x = mkterm(rng, d, percentage=rng.choice([100.0, 50.0, 37]))
        m.op('term', *key(d))
        observe(m, x, d)
        m.eq(str(x), want_name(d)[1], 'str')
        objs.append((x, d))
    for x, d in objs:
        for y, e in objs:
            want = key(d) == key(e)
            m.ok((x == y) is want or bool(x == y) == want, 'equality', lambda: f'{x.name} == {y.name} gave {not want}')
            m.ok(bool(x != y) != want, 'inequality', lambda: f'{x.name} != {y.name} gave {want}')
            m.ok(bool(MultiTerm(x) == y) == want, 'equality', lambda: f'Multi {x.name} == {y.name} gave {not want}')
            m.ok(bool(MultiTerm(x) == MultiTerm(y)) == want, 'equality', lambda: f'Multi {x.name} / {y.name}')
    m.state('family', base['coupling'], base['J'], base['F'], len({key(d) for d in fam}))


def copies(rng, m):
    d = draw(rng)
    pct = rng.choice([100.0, 12.5, 60])
    x = mkterm(rng, d, percentage=pct)
    m.op('term', *key(d))
    for _ in range(3):
        e = dict(d)
        kw = {}
        if d['F'] is None and rng.random() < .6:
            e['F'] = rng.randrange(0, 20)
            kw['F'] = num(rng, e['F'])
        if e['F'] is not None and rng.random() < .6 and (d['M'] is None or rng.random() < .5):
            e['M'] = rng.choice(range(-e['F'], e['F'] + 1, 2))
            kw['mF'] = num(rng, e['M'])
        y = x.make_term_copy(**kw)
        m.op('copy', repr(kw))
        observe(m, y, e, 'copy')
        m.ok(y is not x, 'copy-new')
        m.eq(y.percentage, pct, 'copy-percentage')
        m.eq((y.parity, y.coupling, y.quantum_nums), (x.parity, x.coupling, x.quantum_nums), 'copy-quantum-numbers')
        observe(m, x, d, 'original after copy')
        m.state('copy', d['coupling'], e['F'], e['M'])
        x, d = y, e


def mixtures(rng, m):
    from atomtoolkit.term import MultiTerm
    n = rng.randrange(1, 5)
    J = rng.randrange(0, 12)
    pcts = rng.sample([round(rng.uniform(0.1, 99), 2) + i * 1e-3 for i in range(6)] + [100.0, 50, 33, 1], n)
    ds = []
    ties = n > 1 and rng.random() < .3
    if ties:
        i, j = rng.sample(range(n), 2)
        pcts[i] = pcts[j]
        m.seen('equal-percentages')
    for p in pcts:
        d = draw(rng)
        if ds and rng.random() < .15:               # the same term of the same configuration, by another parent
            d = dict(rng.choice(ds))
            m.seen('same-term-twice')
        d.update(J=J, F=None, M=None, pct=p)
        ds.append(d)
    objs = [mkterm(rng, d, percentage=d['pct']) for d in ds]
    mt = MultiTerm(*objs)
    m.op('mixture', *[(d['conf'], d['term'], d['pct']) for d in ds])
    order = sorted(range(n), key=lambda i: -pcts[i])
    if ties:
        # terms of equal percentage may come in either order; what they are must not change
        m.eq(sorted(id(mt[k]) for k in range(len(mt))), sorted(map(id, objs)), 'mixture-order', 'ties')
        order = [next(i for i in range(n) if objs[i] is mt[k]) for k in range(n)]
    lead = ds[order[0]]
    observe(m, mt, lead, 'mixture')
    m.eq(len(mt), n, 'mixture-length')
    for k, i in enumerate(order):
        m.same(mt[k], objs[i], 'mixture-order')
    m.eq([t.percentage for t in mt], sorted(pcts, reverse=True), 'mixture-order')
    m.eq(mt.percentage, max(pcts), 'mixture-percentage')
    m.eq(mt.full_name, f'{want_name(lead)[0]} ({max(pcts)}%)', 'full-name')
    m.eq(mt.quantum_nums, objs[order[0]].quantum_nums, 'mixture-lead')
    m.eq((mt.coupling, mt.parity), (lead['coupling'], lead['par']), 'mixture-lead')
    perm = objs[:]
    rng.shuffle(perm)
    m.ok(ties or bool(MultiTerm(*perm) == mt), 'mixture-order-independent', 'reordered mixture differs')
    m.ok(bool(MultiTerm(*objs) == mt), 'mixture-equal', 'the same mixture differs')
    if n > 1:
        m.ok(not bool(MultiTerm(*objs[:-1]) == mt), 'mixture-inequality', 'shorter mixture equal')
        k = rng.randrange(n)
        other = objs[:]
        other[k] = objs[k].make_term_copy(F=0.5)
        m.ok(not bool(MultiTerm(*other) == mt), 'mixture-inequality', 'one component differs')
        m.ok(not bool(mt == MultiTerm(*objs[:-1])), 'mixture-inequality', 'shorter mixture equal')
    F = rng.randrange(0, 12)
    M = rng.choice(range(-F, F + 1, 2)) if rng.random() < .5 else None
    cp = mt.make_term_copy(F=F / 2, mF=None if M is None else M / 2)
    m.eq(len(cp), n, 'mixture-copy')
    for k, i in enumerate(order):
        observe(m, cp[k], dict(ds[i], F=F, M=M), 'mixture copy')
        m.eq(cp[k].percentage, pcts[i], 'mixture-copy')
    observe(m, mt, lead, 'mixture after copy')
    m.state('mixture', n, J, tuple(order), ties)


def conversions(rng, m):
    from atomtoolkit import util
    for t in range(-21, 44):
        m.op('conv', t)
        x = t / 2
        s = frac(t)
        m.eq(util.float_to_frac(x), s, 'to-fraction')
        m.eq(util.frac_to_float(s), x, 'to-float')
        m.eq(util.float_to_frac(s), s, 'to-fraction')
        m.eq(util.frac_to_float(util.float_to_frac(x)), x, 'inverse')
        m.eq(util.float_to_frac(str(x)), s, 'to-fraction')
        if t % 2 == 0:
            m.eq(util.float_to_frac(t // 2), s, 'to-fraction')
        m.eq(util.frac_to_float(x), x, 'to-float')
    m.eq((util.float_to_frac(None), util.frac_to_float(None)), (None, None), 'none')
    for i, let in enumerate(LETTERS):
        m.eq(util.l_to_let(i), let, 'letter')
        m.eq(util.l_to_let(float(i)), let, 'letter')
        m.eq(util.let_to_l(let), i, 'letter')
        m.eq(util.let_to_l(let.lower()), i, 'letter')
    m.raises(ValueError, lambda: util.l_to_let(rng.randrange(0, 9) + .5), 'letter')


SCENARIOS = {'equality': (1600, 20000, equality), 'copies': (2400, 30000, copies), 'mixtures': (2400, 30000, mixtures),
             'conversions': (16, 16, conversions)}
REQUIRED = {'check:equality': 20000, 'check:name': 10000, 'check:mixture-order': 2000, 'check:to-fraction': 100, 'equal-percentages': 200, 'same-term-twice': 150}
