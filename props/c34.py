"""C34 minimal realizations."""
from .kalman import *
from .c33 import seq
from .rooted import monic, rooted

RULE = ('value numbering: the result has the transfer matrix of the argument and as many states as its controllable and observable part; '
        'the distance of a pair to uncontrollable ones is zero exactly for uncontrollable pairs, factorizations are interpreted '
        'exactly in GF(p)')
ANCHORS = ('minimal_realization',)
MIN = {'quick': 60}
CASE_SECONDS = 200
WH = 'harold/_system_funcs.py:minimal_realization'
MORE = {2: ((0, 0, 0, 2), (0, 1, 0, 1), (0, 0, 1, 1)),
        3: ((0, 1, 2, 0), (0, 3, 0, 0), (0, 0, 3, 0), (1, 0, 1, 1), (1, 1, 0, 1))}

E_ = 1e-9j
# zeros, poles as computed, zeros and poles left
ROOTS = (((), (-1,), (), (-1,)), ((-2,), (-1,), (-2,), (-1,)), ((-1,), (-1,), (), ()), ((-1,), (-1, -2), (), (-2,)), ((-2,), (-1, -2), (), (-1,)),
         ((-1, -2), (-1, -2), (), ()), ((-1, -2), (-2, -3), (-1,), (-3,)), ((-1, -1), (-1, -2), (-1,), (-2,)), ((-1,), (-1, -1), (), (-1,)),
         ((-1, -2), (-3, -4, -5), (-1, -2), (-3, -4, -5)), ((-1, -2, -3), (-3, -4, -1), (-2,), (-4,)),
         ((-1 + 2j, -1 - 2j), (-1 + 2j, -1 - 2j), (), ()), ((-1 + 2j, -1 - 2j), (-1 + 2j, -1 - 2j, -3), (), (-3,)),
         ((-1 + 2j, -1 - 2j), (-2 + 2j, -2 - 2j), (-1 + 2j, -1 - 2j), (-2 + 2j, -2 - 2j)),
         ((-3, -1 + 2j, -1 - 2j), (-1 + 2j, -1 - 2j, -4), (-3,), (-4,)), ((-3,), (-1 + 2j, -1 - 2j, -3), (), (-1 + 2j, -1 - 2j)),
         # multiple real roots that come out as pairs
         ((-3 + E_, -3 - E_), (-3, -5), (-3,), (-5,)), ((-3 + E_, -3 - E_), (-5, -3), (-3,), (-5,)), ((-3 + E_, -3 - E_), (-3, -5, -3), (), (-5,)),
         ((-3 + E_, -3 - E_), (-3 + E_, -3 - E_, -5), (), (-5,)), ((-3,), (-3 + E_, -3 - E_, -5), (), (-3, -5)), ((-3,), (-5, -3 + E_, -3 - E_), (), (-3, -5)),
         ((-3, -2), (-3 + E_, -3 - E_), (-2,), (-3,)), ((-2, -3 + E_, -3 - E_), (-3, -5, -6), (-2, -3), (-5, -6)))


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for st in STRUCT[n] + MORE.get(n, ()):
            for p, m in ((1, 1), (2, 1), (1, 2), (2, 2)):
                if n == 3 and (p * m > 1 or st[0] > 1) and max(st) < 3:
                    if p * m > 2:
                        continue
                for dt in (None, 0.5) if (p, m) == (1, 1) else (None,):
                    out.append(('state', st, p, m, dt))
    for dt in (None, 0.5):
        out += [('tf', x, 1, 1, dt) for x in ROOTS]
        out += [('tf', (x, y), p, m, dt) for x, y in zip(ROOTS, ROOTS[1:] + ROOTS[:1]) for p, m in ((1, 2), (2, 1))]
    out += [('gain', (), p, m, dt) for p, m in ((1, 1), (2, 1), (2, 2)) for dt in (None, 0.5)]
    return out


def name(c):
    f, st, p, m, dt = c
    if f == 'tf':
        nm = lambda l: ' '.join('%g%s' % (z.real, '%+gj' % z.imag if z.imag else '') for z in l) or 'none'
        return 'minimal_realization(Transfer %dx%d, %s, %s)' % (p, m, '; '.join('zeros %s poles %s' % (nm(x[0]), nm(x[1])) for x in ((st,) if p * m == 1 else st)),
                                                                'discrete' if dt else 'continuous')
    return 'minimal_realization(%s, %dx%d, %s)' % ('structure ' + '+'.join(map(str, st)) if st else 'static gain', p, m,
                                                  'discrete' if dt else 'continuous')


def run_case(I, s, c):
    saved, I.summaries = I.summaries, {k: v for k, v in I.summaries.items() if k != 'staircase'}
    try:
        return _run(I, s, c)
    finally:
        I.summaries = saved


def _run(I, s, c):
    f, st, p, m, dt = c
    I.general, I.eqbudget, I.limit = True, 0, 4000000
    if f == 'tf':
        return transfer(I, s, c)
    if f == 'gain':
        g, s = good(call(I, 'State', [arr(s, tm.leaf('D', (p, m)))], {'dt': C(dt)} if dt else {}, s), 'State')
    else:
        g, s = state(I, s, st, p, m, dt)
    want = gz(I, g, s)
    rs = call(I, 'minimal_realization', [g], {}, s)
    k = st[0] if st else 0

    def pred(v, t):
        if cls_of(v, t) != 'State':
            return False, 'the result is not a State'
        if eqv(attr(I, v, t, 'SamplingPeriod'), C(dt), t) is not True:
            return False, 'the sampling period is not kept'
        a, b, cc, d = abcd(I, v, t)
        if a.shape != (k, k):
            return False, '%d states are left instead of %d' % (a.shape[0], k)
        if not k:
            for w, u in mcall(I, t.fork(), v, 'to_array', [], {}):
                if isinstance(w, Raise):
                    return False, 'a model without states is not a static gain'
        F = Facts(t)
        F.eq(state_term(a, b, cc, d), want, 'the input/output behaviour changed')
        return F.done()
    return res(name(c), judge_total(I, rs, pred, WH), WH)


def transfer(I, s, c):
    f, st, p, m, dt = c
    wh = 'harold/_system_funcs.py:_minimal_realization_simplify'
    sp = (st,) if p * m == 1 else st
    g, s, ks, fx = rooted(I, s, sp, p, m, dt)
    want = [([tm.arith('mul', k, x) for x in monic(z2)], monic(p2)) for k, (zz, pp, z2, p2) in zip(ks, sp)]
    I.general, I.factors = True, {'roots': fx}
    try:
        rs = call(I, 'minimal_realization', [g], {}, s)
    finally:
        I.factors = {}

    def pred(v, t):
        if cls_of(v, t) != 'Transfer':
            return False, 'the result is not a Transfer'
        if eqv(attr(I, v, t, 'SamplingPeriod'), C(dt), t) is not True:
            return False, 'the sampling period is not kept'
        F = Facts(t)
        for nm, side in (('num', 0), ('den', 1)):
            x = attr(I, v, t, nm)
            for k in range(p * m):
                e = x if p * m == 1 else seq(seq(x, t)[0 if p == 1 else k], t)[k if p == 1 else 0]
                r = term(e, t)
                if r is None or not tm.conc(r.shape):
                    raise Undecided('the polynomial has no term')
                w = want[k][side]
                F.true(tm.nelem(r.shape) == len(w), 'entry %d: the %s has degree %d instead of %d' % (k, ('numerator', 'denominator')[side], tm.nelem(r.shape) - 1, len(w) - 1))
                if tm.nelem(r.shape) == len(w):
                    for a, b in zip(tm.entries(r), w):
                        F.eq(a, b, 'entry %d: the %s does not have the roots that are left' % (k, ('numerator', 'denominator')[side]))
        return F.done()
    return res(name(c), judge_total(I, rs, pred, wh), wh)
