"""C30 plots show every channel of every model."""
import re

from absint.ext import todim

from .simul import *

RULE = ('effect analysis: the sequence of drawing calls on the axes grid is, for each model and channel, one curve on the axes of that '
        'channel whose data have the value numbers of the simulated or frequency response, with the documented label, style and kind')
ANCHORS = ('step_response_plot', 'impulse_response_plot', 'bode_plot', 'nyquist_plot')
MIN = {'quick': 120}
CASE_SECONDS = 90
WT = 'harold/_time_domain_plots.py:'
WF = 'harold/_frequency_domain_plots.py:'
CURVES = ('plot', 'step', 'semilogx', 'semilogy', 'loglog', 'scatter', 'stairs', 'errorbar', 'fill_between')
# functions the compared formulas are written with; anything else is not comparable
KNOWN = ('log10', 'abs', 'unwrap', 'angle', 'real', 'imag', 'expm', 'zexp', 'exp', 'tan', 'sqrt')


def systems(tf=True):
    a = [('S', 2, 1, 1), ('S', 1, 2, 2), ('S', 2, 1, 2), ('S', 2, 2, 1), ('S', 2, 2, 3), ('T', 1, 1), ('T', 2, 1), ('T', 1, 2), ('Sg', 1, 1), ('Sg', 2, 2),
         ('Tg', 1, 1), ('Tg', 1, 2)]
    out = []
    for g in a:
        for dt in (None, 'T'):
            out.append(g + (dt,) + (((1, 2),) if g[0] == 'T' else ()))
    return out


def groups():
    S = lambda n, p, m, dt=None: ('S', n, p, m, dt)
    return [(S(1, 1, 1), S(2, 1, 1)), (S(1, 2, 1), S(1, 1, 2)), (S(1, 1, 1), S(1, 2, 2)), (S(1, 2, 2), S(2, 1, 1)), (S(1, 1, 1, 'T'), S(1, 1, 1)),
            (S(1, 1, 1), ('T', 1, 1, 'T', (1, 2)), ('Sg', 1, 1, None)), (S(1, 2, 1, 'T'), ('Tg', 1, 1, None), S(1, 1, 2)),
            (('Sg', 1, 1, None),) * 11]


STYLES = (None, 2, 1, 4)


def cases(tier):
    out = []
    for f in ('step', 'impulse'):
        out += [(f, (g,), st, ()) for g in systems() for st in (None, 1)]
        out += [(f, g, st, (form,)) for g in groups() for st in STYLES for form in (('list', 'tuple') if st is None else ('list',))]
    for g in systems():
        for db in (False, True):
            for hz in (False, True):
                for deg in (False, True):
                    out.append(('bode', (g,), None, (db, hz, deg)))
        for hz in (False, True):
            for neg in (False, True):
                out.append(('nyquist', (g,), None, (hz, neg)))
        if g[:4] == ('S', 1, 2, 2):
            z = ('Z',) + g[1:]
            out += [('bode', (z,), None, (False, False, d)) for d in (False, True)] + [('nyquist', (z,), None, ()), ('step', (z,), None, ())]
        out += [('bode', (g,), None, ()), ('nyquist', (g,), None, ()), ('bode', (g,), 1, ()), ('nyquist', (g,), 1, ())]
    for g in groups():
        for st in STYLES:
            out += [('bode', g, st, ()), ('nyquist', g, st, ())]
    return out


def name(c):
    f, gs, st, opt = c
    o = []
    if st:
        o.append('%d styles' % st)
    if f == 'bode' and opt:
        o += [k for k, x in zip(('use_db', 'use_hz', 'use_degree'), opt) if x]
    elif f == 'nyquist' and opt:
        o += [k for k, x in zip(('use_hz', 'negative_freqs'), opt) if x]
    elif opt:
        o += list(opt)
    if len(gs) > 3:
        gs = gs[:1]
        o.append('%d models' % len(c[1]))
    return '%s(%s%s)' % ({'step': 'step_response_plot', 'impulse': 'impulse_response_plot', 'bode': 'bode_plot', 'nyquist': 'nyquist_plot'}[f],
                         ', '.join('zero channel ' * (g[0] == 'Z') + sname(('S',) + g[1:] if g[0] == 'Z' else g) for g in gs), ''.join('; ' + x for x in o))


def zero_channel(I, s, g):
    """a 2x2 model whose second input does not reach the first output"""
    L = lambda n: N('float', tm.leaf(n, ()))
    a = [arr2(s, 1, 1, [L('za')]), arr2(s, 1, 2, [L('zb'), C(0.)]), arr2(s, 2, 1, [L('zc0'), L('zc1')]), arr2(s, 2, 2, [L('zd0'), C(0.), L('zd1'), L('zd2')])]
    return good(call(I, 'State', a, {'dt': N('float', T_)} if g[4] else {}, s), 'State')


def arr2(s, p, m, es):
    return s.new_arr(tm.lit([e.term if isinstance(e, N) else tm.const(0) for e in es], (p, m)), 'float', (p, m))


def styles(s, k):
    return s.new_list([s.new_dict([(C('color'), C('c%d' % i)), (C('linewidth'), C(i + 1))]) for i in range(k)])


def cell(t):
    """(row, column) of an axes object"""
    m = re.match(r'ax\d+_(\d+)_(\d+)$', t.args[0]) if t is not None and t.op == 'leaf' else None
    if m is None:
        raise Undecided('axes of unknown position')
    return int(m.group(1)), int(m.group(2))


def curves(s, k0):
    """drawing calls after event k0: [(cell, kind, x entries, y entries, keywords)] and the other calls"""
    out, other, grids = [], [], []
    for e in s.events[k0:]:
        if e[0] == 'subplots':
            grids.append((todim(e[1]), todim(e[2])))
        if e[0] != 'draw' or e[1] != 'axes':
            continue
        _, _, ax, nm, args, kw, terms, where = e
        kw = dict(kw)
        if nm in CURVES:
            if len(args) < 2:
                raise Undecided('curve without two data arrays')
            xs = [entries_of(a, t, s) for a, t in list(zip(args, terms))[:2]]
            if None in xs:
                raise Undecided('curve data without terms')
            if all(x.op == 'const' for x in xs[0] + xs[1]):
                other.append((cell(ax), nm, args, kw))
                continue
            out.append((cell(ax), nm, xs[0], xs[1], kw))
        else:
            other.append((cell(ax), nm, args, kw))
    if len(grids) != 1:
        raise Undecided('%d figures' % len(grids))
    return out, other, grids[0]


def entries_of(a, t, s):
    if t is None:
        t = term(a, s)
    if t is None or t.shape is None or not tm.conc(t.shape):
        return None
    return list(tm.entries(t)) if t.shape != () else [t]


def comparable(es):
    for e in es:
        for x in tm.walk(e):
            if x.op == 'uf' and x.args[0] not in KNOWN:
                return False
            if x.op == 'uf' and x.args[0] == 'log10' and not (x.args[1].op == 'uf' and x.args[1].args[0] == 'abs'):
                return False
    return True


def equal(t, got, want):
    if len(got) != len(want):
        return False
    r = agree(t, tm.lit(got, (len(got),)), tm.lit(want, (len(want),)))
    return r if r or comparable(got) else None


def match(t, got, want, what):
    """every wanted curve is drawn exactly once and nothing else is"""
    left = list(got)
    for w in want:
        hit, maybe = None, False
        for g in left:
            if g[0] != w['cell'] or not w['kind'](g):
                continue
            r = [equal(t, g[2], w['x']), w['y'] is None or equal(t, g[3], w['y'])]
            if all(r):
                if w['kw'] is not None and any(not isinstance(g[4].get(k), C) or g[4][k].v != v.v for k, v in w['kw'].items()):
                    continue
                hit = g
                break
            if None in r and False not in r:
                maybe = True
        if hit is None:
            if maybe:
                return None, 'curve data are not comparable'
            return False, 'no such curve: %s' % w['name']
        left.remove(hit)
    if left:
        return False, 'an additional curve is drawn on axes %s' % (left[0][0],)
    return True, '%d curves' % len(want)


def steps(g):
    return g[1] == 'step' or 'drawstyle' in g[4]


def run_case(I, s, c):
    f, gs, st, opt = c
    I.general, I.eqbudget, I.maskfork, I.limit = True, 0, 3, 3000000
    vs = []
    for i, g in enumerate(gs):
        v, s = zero_channel(I, s, g) if g[0] == 'Z' else build(I, s, g, 'abcdefghijk'[i])
        vs.append(v)
    kw = {}
    if st:
        kw['style'] = styles(s, st)
    arg = vs[0] if len(vs) == 1 else Tu(vs) if 'tuple' in opt else s.new_list(vs)
    sty = [{'color': C('c%d' % (i % st)), 'linewidth': C(i % st + 1)} if st else None for i in range(len(gs))]
    return (time_plot if f in ('step', 'impulse') else bode if f == 'bode' else nyquist)(I, s, c, vs, arg, kw, sty)


def dtof(g):
    return g[4] if g[0] == 'Z' else odt(g)


def dims(gs):
    sh = [(2, 2) if g[0] == 'Z' else oshape(g) for g in gs]
    return sh, (max(p for p, m in sh), max(m for p, m in sh))


def time_plot(I, s, c, vs, arg, kw, sty):
    f, gs, st, opt = c
    t, es = times(s, 3, 'T')
    kw['t'] = t
    sh, grid = dims(gs)
    sim = 'simulate_%s_response' % f
    want = []
    for i, v in enumerate(vs):
        y, s = good(call(I, sim, [v], {'t': t}, s), sim)
        yy = list(tm.entries(term(y.items[0], s)))
        p, m = sh[i]
        for r in range(p):
            for q in range(m):
                want.append({'cell': (r, q), 'x': es, 'y': [yy[k * p * m + r * m + q] for k in range(3)], 'kw': sty[i],
                             'kind': steps if dtof(gs[i]) is not None else (lambda g: not steps(g)),
                             'name': 'output %d, input %d of model %d' % (r, q, i)})
    k0 = len(s.events)
    fn = f + '_response_plot'
    rs = call(I, fn, [arg], kw, s)

    def pred(v, t):
        got, other, gr = curves(t, k0)
        if gr != grid:
            return False, 'the axes grid is %s instead of %s' % (gr, grid)
        return match(t, got, want, c)
    return res(name(c), judge_total(I, rs, pred, WT + fn), WT + fn)


def freq(I, s, gs, vs, hz):
    """frequency responses of the models at three given frequencies"""
    es = [tm.leaf('w%d' % i, (), ('pos', 'nonzero')) for i in range(3)]
    w = s.new_arr(tm.lit(es, (3,)), 'float', (3,))
    u = C('Hz' if hz else 'rad/s')
    out = []
    for v in vs:
        # all three below the Nyquist frequency
        y, s = [(y, t) for y, t in call(I, 'frequency_response', [v, w], {'w_unit': u, 'output_unit': u}, s)
                if isinstance(y, Tu) and term(y.items[1], t).shape == (3,)][0]
        out.append([x for x in tm.entries(term(y.items[0], s))])
    return es, w, out, s


def bode(I, s, c, vs, arg, kw, sty):
    f, gs, st, opt = c
    db, hz, deg = opt or (False, True, True)
    sh, (mp, mm_) = dims(gs)
    es, w, fre, s = freq(I, s, gs, vs, hz)
    kw['w'] = w
    if opt:
        kw.update({'use_db': C(db), 'use_hz': C(hz), 'use_degree': C(deg)})
    want, lines = [], []
    for i, g in enumerate(gs):
        p, m = sh[i]
        for r in range(p):
            for q in range(m):
                z = [fre[i][(r * m + q) * 3 + k] for k in range(3)]
                mag = [tm.arith('mul', tm.const(20 if db else 1), ext.eltwise1('log10', ext.eltwise1('abs', x))) for x in z]
                ang = tm.lit([ext.eltwise1('angle', x) for x in z], (3,))
                pha = [tm.entries(ang)[0]] + [tm.uf('unwrap', (ang, tm.const(k)), ()) for k in (1, 2)]
                if deg:
                    pha = [ext.eltwise1('rad2deg', x) for x in pha]
                if all(tm.same(x, tm.ZERO) for x in z):
                    mag = pha = None
                for d, y, k in ((0, mag, 'mag'), (1, pha, 'phase')):
                    want.append({'cell': (2 * r + d, q), 'x': es, 'y': y, 'kind': lambda g: True,
                                 'kw': dict(sty[i] or {}, label=C('sys_%d_in_%d_out_%d_%s' % (i, q, r, k))),
                                 'name': '%s of output %d, input %d of model %d' % (k, r, q, i)})
                    if dtof(g) is not None:
                        ny = tm.arith('div', tm.ONE, tm.arith('mul', tm.const(2), T_)) if hz else tm.arith('div', ext.PI.term, T_)
                        lines.append(((2 * r + d, q), ny))
    k0 = len(s.events)
    rs = call(I, 'bode_plot', [arg], kw, s)

    def pred(v, t):
        got, other, gr = curves(t, k0)
        if gr != (2 * mp, mm_):
            return False, 'the axes grid is %s instead of %s' % (gr, (2 * mp, mm_))
        ok, msg = match(t, got, want, c)
        if ok is not True:
            return ok, msg
        marks = [(cl, term(a[0], t)) for cl, nm, a, k in other if nm == 'axvline' and a]
        if len(marks) != len(lines) and not any(nm in ('vlines', 'axvline') and not a for cl, nm, a, k in other):
            if not any(nm == 'vlines' for cl, nm, a, k in other):
                return False, '%d Nyquist frequency lines instead of %d' % (len(marks), len(lines))
        for cl, ny in lines:
            if not any(a == cl and b is not None and agree(t, b, ny) is not False for a, b in marks) and marks:
                return False, 'no line at the Nyquist frequency on axes %s' % (cl,)
        return True, msg
    return res(name(c), judge_total(I, rs, pred, WF + 'bode_plot'), WF + 'bode_plot')


def nyquist(I, s, c, vs, arg, kw, sty):
    f, gs, st, opt = c
    hz, neg = opt or (True, True)
    sh, grid = dims(gs)
    es, w, fre, s = freq(I, s, gs, vs, hz)
    kw['w'] = w
    if opt:
        kw.update({'use_hz': C(hz), 'negative_freqs': C(neg)})
    want = []
    for i, g in enumerate(gs):
        p, m = sh[i]
        for r in range(p):
            for q in range(m):
                z = [fre[i][(r * m + q) * 3 + k] for k in range(3)]
                re_, im = [ext.eltwise1('real', x) for x in z], [ext.eltwise1('imag', x) for x in z]
                for y, k in ((im, 'positive'), ([tm.neg(x) for x in im], 'negative'))[:2 if neg else 1]:
                    want.append({'cell': (r, q), 'x': re_, 'y': y, 'kw': sty[i], 'kind': lambda g: True,
                                 'name': '%s frequencies of output %d, input %d of model %d' % (k, r, q, i)})
    k0 = len(s.events)
    rs = call(I, 'nyquist_plot', [arg], kw, s)

    def pred(v, t):
        got, other, gr = curves(t, k0)
        if gr != grid:
            return False, 'the axes grid is %s instead of %s' % (gr, grid)
        return match(t, got, want, c)
    return res(name(c), judge_total(I, rs, pred, WF + 'nyquist_plot'), WF + 'nyquist_plot')
