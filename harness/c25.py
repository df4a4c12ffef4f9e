import itertools
import random

import numpy as np

import c19
import lib
import oracle as o
from engine import Skip
from lib import Fs, Ms, Spec, fk, mk

ID = 'C25'
RULE = ('Each case builds an atom, asks for random levels, hyperfine levels and Zeeman levels with random strategies, '
        'widths, positions, scales, reference F and boxes, and for random arrows, renders onto fresh axes, reads lines, '
        'boxes and arrows back from the axes and matches them one to one with the geometry computed from the description '
        'of the atom; then renders again, edits the atom and renders again; a twin never drawn shows whether drawing '
        'altered the atom. The overview diagram is compared after removals and replacements.')
ASSUMPTIONS = ['Spacing is realistic.', 'A level is asked for once per diagram where arrows are involved.',
               'Arrow ends are read from the two positions the arrow patch was given.']
ANCHOR = {1: (0, 1), 2: (.5, 1), 3: (1, 1), 4: (0, .5), 5: (.5, .5), 6: (1, .5), 7: (0, 0), 8: (.5, 0), 9: (1, 0)}


class Model:
    def __init__(self, spec):
        self.spec = spec
        self.default_width = 0.8
        self.lines, self.boxes, self.rects, self.brackets = [], {}, [], []

    def squeeze(self, l, kw):
        s = kw.get('squeeze', True)
        if s is True:
            s = (l['J'] + self.spec.I) / 2
        elif s is False:
            g = self.order[0]
            s = max(Fs(self.spec.I, g['J'])) / 2
        return int(2 * s + 1)

    def base(self, l, kw):
        W = kw.get('width', self.default_width)
        x = kw.get('x0', l['J'] / 2) + kw.get('x1', 0)
        y = kw.get('y0', l['E'] / 1e12) + kw.get('y1', 0)
        return W, x, y

    def style(self, kw):
        return kw.get('color', (0, 0, 0, 1)), kw.get('linewidth', 2)

    def hf_line(self, l, F, kw):
        W, x, y = self.base(l, kw)
        fs = Fs(self.spec.I, l['J'])
        i = (F - fs[0]) / 2
        off = kw.get('offset', 0.0)
        a = kw.get('sublevel_width', 1.0)
        a = {'degeneracy': 1.0, 'schematic': 0.0}.get(a, a)
        w = a * W * (F + 1) / self.squeeze(l, kw) + (1 - a) * (W - (len(fs) - 1) * off * W)
        c = x + off * W * i
        y += kw.get('hf_scale', 1e4) / 1e12 * self.spec.hf_shift(l, F)
        return (c - w / 2, c + w / 2, y)

    def z_line(self, l, F, M, kw):
        W, x, y = self.base(l, kw)
        n = self.squeeze(l, kw)
        f = kw.get('fill_factor', .9)
        w, gap = f * W / n, (1 - f) * W / max(n - 1, 1)
        c = x + M / 2 * (w + gap)
        y += kw.get('hf_scale', 1e4) / 1e12 * (self.spec.hf_shift(l, F) + kw.get('z_scale', 5.0) * self.spec.z_shift(l, F, M))
        return (c - w / 2, c + w / 2, y)

    def box(self, ls, pad):
        x0, x1 = min(min(a[:2]) for a in ls), max(max(a[:2]) for a in ls)
        y0, y1 = min(a[2] for a in ls), max(a[2] for a in ls)
        p = (y1 - y0) * pad
        return (x0 - pad, y0 - p, x1 + pad, y1 + p)

    def add(self, key, strat, kw):
        l, F, M = key
        st = self.style(kw)
        pad = kw.get('bbox_pad', .05)
        W, x, y = self.base(l, kw)
        n = l['name']
        mine = []

        def put(name, seg):
            self.lines.append((*seg, *st))
            self.boxes.setdefault(name, self.box([seg], pad))
            mine.append(seg)
            return seg
        if strat == 'g':
            put((n,), (x - W / 2, x + W / 2, y))
            key = (n,)
        elif strat == 'hf':
            for f in ([F] if F is not None else Fs(self.spec.I, l['J'])):
                put((n, f), self.hf_line(l, f, kw))
            key = (n, F) if F is not None else (n,)
            if F is None:
                self.boxes[key] = self.box(mine, pad)
        else:
            allsegs = []
            for f in ([F] if F is not None else Fs(self.spec.I, l['J'])):
                zs = [put((n, f, mm), self.z_line(l, f, mm, kw)) for mm in ([M] if M is not None else Ms(f))]
                if M is None:
                    self.boxes[n, f] = self.box(zs, pad)
                    allsegs += zs + [self.hf_line(l, f, kw)]
            if F is None:
                self.boxes[n,] = self.box(allsegs, pad)
                key = (n,)
            else:
                key = (n, F) if M is None else (n, F, M)
        b = kw.get('bbox')
        if b in ('rect', 'rectangle'):
            self.rects.append((self.boxes[key], mine, (kw['rect_alpha'], kw['rect_color'], kw['rect_fill'])
                               if 'rect_alpha' in kw else None))
        elif b == 'bracket':
            x0, y0, x1, y1 = self.boxes[key]
            h = kw.get('bracket_h', .05)
            cl = (kw.get('bracket_color', (0, 0, 0, .8)), kw.get('bracket_lw', 1))
            self.brackets.append(([(x0 + h, y0), (x0, y0), (x0, y1), (x0 + h, y1)], cl))
            self.brackets.append(([(x1 - h, y0), (x1, y0), (x1, y1), (x1 - h, y1)], cl))

    def find(self, key, over=False):
        """the box an arrow to this (sub)level attaches to"""
        n = key[0]['name']
        full = (n,) if key[1] is None else (n, key[1]) if key[2] is None else (n, key[1], key[2])
        if over in ('manifold', 'gross', 'g'):
            return self.boxes.get((n,))
        if over in ('hf', 'hyperfine'):
            return self.boxes.get(full[:2])
        for k in range(len(full), 0, -1):
            if full[:k] in self.boxes:
                return self.boxes[full[:k]]


def keyword(rng, m, model, strat, single):
    kw = {}
    if rng.random() < .4:
        kw['width'] = rng.choice([.5, 1, lib.logu(rng, .1, 5)])
    if rng.random() < .4:
        kw['x0'] = rng.choice([0, 0.0, 2, rng.uniform(-5, 5)])
    if rng.random() < .4:
        kw['x1'] = rng.choice([0.5, rng.uniform(-3, 3)])
    if rng.random() < .3:
        kw['y0'] = rng.choice([0, rng.uniform(-500, 1000)])
    if rng.random() < .4:
        kw['y1'] = rng.uniform(-100, 100)
    if rng.random() < .5:
        s = rng.choice([True, False, 'n', 'n'])
        kw['squeeze'] = rng.choice([rng.randint(0, 6), rng.randint(0, 9) / 2]) if s == 'n' else s
        m.seen(f'squeeze:{s}')
    if rng.random() < .4:
        kw['hf_scale'] = rng.choice([1, 1e3, lib.logu(rng, 1, 1e6), 0])
    if rng.random() < .4:
        kw['z_scale'] = rng.choice([1, 0, lib.logu(rng, .1, 1e3)])
    if rng.random() < .2:
        kw['spacing'] = rng.choice(['realistic', 1.0, 1])
    if rng.random() < .3:
        kw['sublevel_width'] = rng.choice(['degeneracy', 1.0, 'schematic', 0.0, rng.uniform(0, 1)])
    if rng.random() < .3 and strat == 'hf':
        kw['offset'] = rng.choice([.1, .5, -.2])
    if strat == 'z' and rng.random() < .2:
        kw['fill_factor'] = rng.choice([.5, 1.0, .8])
    if rng.random() < .5:
        kw['bbox'] = rng.choice(['rect', 'rectangle', 'bracket', None])
        if kw['bbox'] == 'bracket' and rng.random() < .5:
            kw.update(bracket_h=.1, bracket_lw=rng.choice([1, 3]), bracket_color=rng.choice([(1, 0, 0, 1), (0, 1, 0, .5)]))
        if kw['bbox'] and 'rect' in kw['bbox'] and rng.random() < .5:
            kw.update(rect_alpha=rng.choice([.5, .9]), rect_color=(0, rng.random(), 1), rect_fill=rng.random() < .5)
    if rng.random() < .3:
        kw['bbox_pad'] = rng.choice([0, .2, 1.0])
    if rng.random() < .4:
        kw['color'] = (rng.random(), rng.random(), 0, 1)
    if rng.random() < .4:
        kw['linewidth'] = rng.choice([1, 3.5])
    return kw


def build(rng, m):
    spec = Spec(rng, nlev=(2, 5), I=[0, 1, 2, 3, 5, 7], Jmax=5, B=0.7, hf=0.8, aliases=0,
                energies=lambda r, i: r.choice([r.uniform(0, 1e15), r.uniform(-1e14, 1e14), 0.0 if i == 0 else 3e14 * i]))
    for l in spec.levels:
        for k in ('A', 'Bq', 'C'):
            l[k] = max(-1e9, min(1e9, l[k]))
    spec.B = max(-1e3, min(1e3, spec.B))
    m.op('spec', spec.I, spec.B, [l['name'] for l in spec.levels])

    def make():
        import atomtoolkit as tk
        from atomtoolkit.atom import Atom
        atom = Atom('X', I=spec.I / 2, B=spec.B * tk.G)
        for l in spec.levels:
            atom.add_level(Spec.level(rng, l))
        return atom
    return spec, make(), make


def obj(atom, key):
    l, F, M = key
    e = atom.levels[l['name']]
    return e if F is None else e[fk(F)] if M is None else e[fk(F)][mk(M)]


def read(ax):
    from matplotlib.collections import LineCollection, PatchCollection
    from matplotlib.patches import FancyArrowPatch, Rectangle
    lines, brackets, rects, arrows = [], [], [], []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            cols, lws = c.get_colors(), c.get_linewidths()
            for i, s in enumerate(c.get_segments()):
                st = (tuple(cols[i % len(cols)]), lws[i % len(lws)])
                s = [tuple(map(float, p)) for p in s]
                if len(s) == 2:
                    lines.append((s, st))
                else:
                    brackets.append((s, st))
        elif isinstance(c, PatchCollection):
            face, edge = c.get_facecolor(), c.get_edgecolor()
            for i, p in enumerate(c.get_paths()):
                v = np.asarray(p.vertices)
                rects.append((*v.min(axis=0), *v.max(axis=0), face[i % len(face)], edge[i % len(edge)]))
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            arrows.append(tuple(tuple(map(float, q)) for q in p._posA_posB))
        elif isinstance(p, Rectangle):
            x, y = p.get_xy()
            rects.append((x, y, x + p.get_width(), y + p.get_height(), p.get_facecolor(), p.get_edgecolor()))
    return lines, brackets, rects, arrows


def match(m, got, want, close, key, what):
    m.eq(len(got), len(want), key + '-count', what)
    left = list(got)
    for w in want:
        hit = next((g for g in left if close(g, w)), None)
        m.ok(hit is not None, key, lambda: f'{what}: nothing drawn at {w}; unmatched {left[:4]}')
        left = [g for g in left if g is not hit]
    m.seen(key, len(want))


def near(a, b, ty):
    """points with tolerance ty in y"""
    return all(abs(p[0] - q[0]) <= 1e-9 * (1 + abs(q[0])) and abs(p[1] - q[1]) <= ty for p, q in zip(a, b)) \
        and len(a) == len(b)


def colour(a, b):
    return abs(a[1] - b[1]) < 1e-9 and np.allclose(a[0], b[0], atol=1e-9)


def painted(face, edge, style):
    """the colours of a rectangle are the ones asked for, if any"""
    if style is None:
        return True
    alpha, color, fill = style
    want = (*color, alpha if fill else 0.0)
    return np.allclose(edge, (*color, alpha), atol=1e-9) and (np.allclose(face, want, atol=1e-9) if fill else face[3] == 0)


def compare(m, ax, model, arrows, ty, what):
    lines, brackets, rects, arr = read(ax)

    def line(g, w):
        s = sorted(g[0])
        return near(s, [(w[0], w[2]), (w[1], w[2])], ty) and colour(g[1], w[3:])
    match(m, lines, [(min(w[:2]), max(w[:2]), *w[2:]) for w in model.lines], line, 'lines', what)
    match(m, brackets, model.brackets, lambda g, w: near(g[0], w[0], 3 * ty) and colour(g[1], w[1]), 'brackets', what)
    pts = lambda r: [(r[0], r[1]), (r[2], r[3])]        # noqa: E731
    match(m, rects, [(*r, st) for r, _, st in model.rects],
          lambda g, w: near(pts(g), pts(w), 3 * ty) and painted(g[4], g[5], w[4]), 'rects', what)
    (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    for s, _ in lines:
        m.ok(all(x0 <= a <= x1 and y0 <= b <= y1 for a, b in s), 'in-view', lambda: f'{what}: {s}; {x0, x1, y0, y1}')
    for r, mine, st in model.rects:
        m.seen('painted', st is not None)
        got = min(rects, key=lambda g: sum(abs(a - b) for a, b in zip(g[:4], r)))
        for s in mine:
            m.ok(got[0] <= s[0] + 1e-9 and got[2] >= s[1] - 1e-9 and got[1] <= s[2] + 3 * ty and got[3] >= s[2] - 3 * ty,
                 'encloses', lambda: f'{what}: box {got} line {s}')
    want = []
    for a, b, kw in arrows:
        ends = []
        for key, an, dx, dy, ov in ((a, 'start_anchor', 'start_x1', 'start_y1', 0), (b, 'end_anchor', 'end_x1', 'end_y1', 1)):
            box = model.find(key, kw.get('override_bbox', (False, False))[ov])
            fx, fy = ANCHOR[kw.get(an, 5)]
            ends.append((box[0] + fx * (box[2] - box[0]) + kw.get(dx, 0), box[1] + fy * (box[3] - box[1]) + kw.get(dy, 0)))
        want.append(tuple(ends))
    match(m, arr, want, lambda g, w: near(g, w, 3 * ty), 'arrows', what)
    m.state(len(lines), len(brackets), len(rects), len(arr))
    return lines, brackets, rects, arr


def laws(m, model, spec, l, F, kw, lines, ty):
    """the picture of one Zeeman manifold, from the drawn lines alone"""
    W, x, _ = model.base(l, kw)
    mine = []
    for M in Ms(F):
        w = model.z_line(l, F, M, kw)
        mine.append(next(s for s, _ in lines if near(sorted(s), [(w[0], w[2]), (w[1], w[2])], ty)))
    mine = [sorted(s) for s in mine]
    ws = [b[0] - a[0] for a, b in mine]
    m.ok(max(ws) - min(ws) <= 1e-9 * (1 + abs(x)), 'one-width', str(ws))
    m.ok(all(a[1][0] <= b[0][0] + 1e-9 for a, b in zip(mine, mine[1:])), 'overlap', str(mine))
    if F + 1 == model.squeeze(l, kw) and F:
        m.close(mine[-1][1][0] - mine[0][0][0], W, 'fills', f'{l["name"]} F={F}', rel=1e-9)
        m.seen('filled')


def diagram(rng, m):
    import matplotlib.pyplot as plt
    from atomtoolkit.atom import Transition
    from atomtoolkit.render.grotrian import Grotrian
    spec, atom, make = build(rng, m)
    g = Grotrian()
    prompts, arrows, keys = [], [], []
    if rng.random() < .2:
        g.level_width = rng.choice([.5, 1.3])
    default = 'g'
    if rng.random() < .2:
        default = g.add_level_strategy = rng.choice(['hf', 'z'])
    for l in rng.sample(spec.levels, rng.randint(1, len(spec.levels))):
        strat = rng.choice(['g', 'hf', 'hf', 'z', 'z'])
        tgt = [(l, None, None)]
        c = rng.random()
        if strat == 'hf' and c < .3:
            tgt = [(l, F, None) for F in rng.sample(Fs(spec.I, l['J']), rng.randint(1, len(Fs(spec.I, l['J']))))]
        elif strat == 'z' and c < .2:
            tgt = [(l, F, None) for F in rng.sample(Fs(spec.I, l['J']), rng.randint(1, len(Fs(spec.I, l['J']))))]
        elif strat == 'z' and c < .4:
            F = rng.choice(Fs(spec.I, l['J']))
            tgt = [(l, F, M) for M in rng.sample(Ms(F), rng.randint(1, F + 1))]
        elif strat == 'g' and c < .2:
            F = rng.choice(Fs(spec.I, l['J']))
            tgt = [(l, F, rng.choice([None, rng.choice(Ms(F))]))]
        for key in tgt:
            kw = keyword(rng, m, None, strat, key[1] is not None)
            word = {'g': ['g', 'gross'], 'hf': ['hf', 'hyperfine'], 'z': ['z', 'zeeman']}[strat]
            args = (rng.choice(word),) if strat != default or rng.random() < .5 else ()
            prompts.append((key, strat, kw))
            g.add_level(obj(atom, key), *args, **kw)
            m.op('add', key[0]['name'], key[1], key[2], strat, sorted(kw.items(), key=str))
            m.seen('strategy:' + strat)

    def model():
        md = Model(spec)
        md.order = sorted(spec.levels, key=lambda q: q['E'])
        md.default_width = g.level_width
        for key, strat, kw in prompts:
            md.add(key, strat, kw)
        return md
    md = model()
    # arrows between anything that has a box of its own or that of a parent
    for key, strat, _ in prompts:
        l = key[0]
        cands = [(l, None, None)] + [(l, F, None) for F in Fs(spec.I, l['J'])]
        cands += [(l, F, M) for F in Fs(spec.I, l['J']) for M in Ms(F)]
        cands = [k for k in cands if md.find(k)]
        if cands:
            keys.append(rng.choice(cands))
    for _ in range(rng.randint(0, 3)):
        if not keys:
            break
        a, b = rng.choice(keys), rng.choice(keys)
        kw = {}
        for k in ('start_anchor', 'end_anchor'):
            if rng.random() < .7:
                kw[k] = rng.randint(1, 9)
                m.seen(f'anchor:{kw[k]}')
        for k in ('start_x1', 'end_x1', 'start_y1', 'end_y1'):
            if rng.random() < .3:
                kw[k] = rng.uniform(-2, 2)
        ov = [rng.choice([f for f in [False, 'manifold', rng.choice(['gross', 'g']), 'hf', 'hyperfine']
                          if not f or md.find(k, f) and (k[2] is not None if f[0] == 'h' else k[1] is not None)])
              for k in (a, b)]
        if any(ov) or rng.random() < .1:
            kw['override_bbox'] = tuple(ov)
            m.seen('override')
        if rng.random() < .3:
            kw['arrowstyle'] = rng.choice(['->', '-', '<|-|>'])
        t = (obj(atom, a), obj(atom, b))
        m.op('arrow', a[0]['name'], a[1:], b[0]['name'], b[1:], sorted(kw.items(), key=str))
        arrows.append((a, b, kw))
        g.add_transition(t, **kw)
    # arrows given as transitions of the atom, or their sub-transitions
    drawn = [l for l in spec.levels if any(k[0] is l for k, _, _ in prompts)]
    joins = [(a, b) for a in drawn for b in drawn if b['E'] - a['E'] > 1e13 and any(lib.pair_kinds(a, b))]
    for a, b in rng.sample(joins, min(len(joins), rng.randint(0, 2))):
        t = Transition(*rng.sample([atom.levels[a['name']], atom.levels[b['name']]], 2))
        atom.add_transition(t)
        depth = rng.randrange(3)
        for _ in range(depth):
            subs = list(t.values())
            if not subs:
                break
            t = rng.choice(subs)
        ends = [(l, None if e.term.F is None else lib.dbl(e.term.F), None if e.term.mF is None else lib.dbl(e.term.mF))
                for l, e in ((a, t.E_lower), (b, t.E_upper))]
        m.eq([obj(atom, k).name for k in ends], [t.E_lower.name, t.E_upper.name], 'transition-ends', t.name)
        if not all(md.find(k) for k in ends):
            continue
        kw = {k: rng.randint(1, 9) for k in ('start_anchor', 'end_anchor') if rng.random() < .7}
        kw.update({k: rng.uniform(-2, 2) for k in ('start_x1', 'end_x1', 'start_y1', 'end_y1') if rng.random() < .3})
        m.op('transition', t.name, sorted(kw.items()))
        m.seen('transition-arrow')
        m.seen('transition-arrow:' + type(t).__name__)
        arrows.append((*ends, kw))
        g.add_transition(t, **kw)
    scale = max([1e4] + [kw.get('hf_scale', 1e4) * max(1, kw.get('z_scale', 5)) for _, _, kw in prompts])

    def tol():
        return 1e-9 + scale / 1e12 * max(spec.tol(l) for l in spec.levels) + \
            1e-12 * scale / 1e12 * max([1.0] + [abs(spec.hf_shift(l, F)) + abs(spec.z_shift(l, F, F)) for l in spec.levels
                                               for F in Fs(spec.I, l['J'])])
    try:
        fig, ax = plt.subplots()
        g.render(ax)
        got = compare(m, ax, md, arrows, tol(), 'first')
        for (l, F, M), strat, kw in prompts:
            if strat == 'z' and M is None:
                for f in ([F] if F is not None else Fs(spec.I, l['J'])):
                    laws(m, md, spec, l, f, kw, got[0], tol())
        if not arrows or rng.random() < .3:
            twin = make()
            if not any(1 for _ in atom.transitions.values()):
                s = rng.random()
                c19.same(m, c19.snap(random.Random(s), atom), c19.snap(random.Random(s), twin), 'atom-altered', 'drawn')
                m.seen('twins')
        fig2, ax2 = plt.subplots()
        if rng.random() < .5:
            g.render(ax2)
        else:
            g.render(axes=ax2)
        again = read(ax2)
        m.ok(repr(again) == repr(got), 'rerender', lambda: f'{again} was {got}')
        # the picture follows the atom
        import atomtoolkit as tk
        for _ in range(2):
            l = rng.choice(spec.levels)
            e = atom.levels[l['name']]
            k = rng.randrange(4)
            if k == 0:
                l['A'] = lib.signed(rng, 1e5, 1e9)
                e.hfA = l['A'] * tk.Hz
            elif k == 1:
                spec.B = lib.signed(rng, 1e-2, 1e3)
                atom.B = spec.B * tk.G
            elif k == 2:
                l['lande'] = lib.signed(rng, .1, 3)
                e.lande = l['lande']
            elif not arrows:
                l['E'] = rng.uniform(-1e14, 1e15)
                e.level = l['E'] * tk.Hz
        fig3, ax3 = plt.subplots()
        g.render(ax3)
        compare(m, ax3, model(), arrows, tol(), 'after edits')
        m.seen('edited')
        if rng.random() < .3:
            # without axes a new figure is made
            n = len(plt.get_fignums())
            g.render()
            m.eq(len(plt.get_fignums()), n + 1, 'own-figure', '')
            compare(m, plt.gcf().axes[0], model(), arrows, tol(), 'own figure')
    finally:
        plt.close('all')


def quick(rng, m):
    """draw_levels: every level once, at its J and energy, and a line for every transition"""
    import matplotlib.pyplot as plt
    from matplotlib.collections import LineCollection, PathCollection
    from atomtoolkit.atom import Transition
    from atomtoolkit.render.grotrian import draw_levels
    spec, atom, make = build(rng, m)
    levels = {l['name']: l for l in spec.levels}
    kind = rng.choice([None, 'norm', 'hf', 'z'])
    sub = kind in ('hf', 'z')
    pairs = set()

    def populate():
        for l in levels.values():
            for h in atom.levels[l['name']].sublevels() if sub else ():
                h.sublevels() if kind == 'z' or rng.random() < .5 else None

    def connect(p):
        for a, b in itertools.combinations_with_replacement(list(levels.values()), 2):
            if any(lib.pair_kinds(a, b)) and rng.random() < p:
                t = atom.add_transition(Transition(atom.levels[a['name']], atom.levels[b['name']]))
                pairs.add(frozenset((a['name'], b['name'])))
                if rng.random() < .3:
                    for h in t.subtransitions():
                        h.subtransitions() if rng.random() < .5 else None
    connect(.4)
    m.op('quick', kind, len(levels))
    ty = max(spec.tol(l) for l in spec.levels) / 1e12 + 1e-12

    def draw():
        fig = plt.figure()
        draw_levels(atom, **({} if kind is None else {'plot_type': kind}))
        pts = [tuple(map(float, p)) for c in fig.axes[0].collections if isinstance(c, PathCollection)
               for p in c.get_offsets()]
        segs = [np.asarray(p, float).tolist() for c in fig.axes[0].collections if isinstance(c, LineCollection)
                for p in c.get_segments()]
        plt.close('all')
        return pts, segs

    def check(what):
        populate()
        want = {}                              # (sub)level: where it is
        for l in levels.values():
            for F in Fs(spec.I, l['J']) if sub else [None]:
                e = l['E'] + (0 if F is None else spec.hf_shift(l, F))
                for M in Ms(F) if kind == 'z' else [None]:
                    want[l['name'], F, M] = l['J'] / 2, (e + (0 if M is None else spec.z_shift(l, F, M))) / 1e12
        if not want:
            return
        pts, segs = draw()
        match(m, pts, list(want.values()), lambda g, w: abs(g[0] - w[0]) < 1e-9 and abs(g[1] - w[1]) <= ty, 'nodes',
              f'draw_levels {kind} {what}')
        if not sub:
            lines = [[want[n, None, None] for n in p] for p in pairs if len(p) == 2]
            match(m, segs, lines, lambda g, w: any(all(abs(a[0] - b[0]) < 1e-9 and abs(a[1] - b[1]) <= ty
                  for a, b in zip(g, x)) for x in (w, w[::-1])), 'edges', f'draw_levels {kind} {what}')
        else:
            # lines are drawn for the sub-transitions looked at so far: none may belong to anything but a transition
            js = {tuple(sorted(levels[n]['J'] / 2 for n in (tuple(p) * 2)[:2])) for p in pairs}
            for g in segs:
                m.ok(tuple(sorted(round(2 * x) / 2 for x, _ in g)) in js, 'edges', lambda: f'{g}, joined {pairs} {what}')
        m.ok(draw() == (pts, segs), 'rerender', 'draw_levels')
    if rng.random() < .5:
        check('as built')
    populate()
    for _ in range(rng.choice([0, 1, 1, 2])):
        l = rng.choice(list(levels.values()))
        k = rng.randrange(3)
        if k == 0 and len(levels) > 1:
            # a level is dropped, and its transitions with it
            del atom.levels[l['name']]
            del levels[l['name']]
            pairs = {p for p in pairs if l['name'] not in p}
            m.seen('removed')
        elif k == 1 and pairs:
            p = rng.choice(sorted(pairs, key=sorted))
            a, b = (tuple(p) * 2)[:2]
            del atom.transitions[a, b]
            pairs.discard(p)
            m.seen('disconnected')
        elif not any(l['name'] in p for p in pairs):
            # a level without transitions is measured anew: an object of the same name takes its place
            l['A'], l['lande'] = lib.signed(rng, 1e5, 1e9), lib.signed(rng, .1, 3)
            atom.add_level(Spec.level(rng, l))
            l['E'] = atom.levels[l['name']].level_Hz
            m.seen('replaced')
    check('in the end')


SCENARIOS = {'diagram': (400, 4000, diagram), 'quick': (80, 800, quick)}
REQUIRED = {'lines': 2000, 'painted': 30, 'check:in-view': 2000, 'brackets': 50, 'rects': 50,
            'arrows': 100, 'filled': 50, 'twins': 30, 'edited': 200, 'nodes': 200, 'replaced': 5, 'removed': 10, 'disconnected': 5, 'transition-arrow': 50}
