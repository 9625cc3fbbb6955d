"""C32 low-frequency gain."""
from .kalman import *

RULE = ('value numbering: the gain is the transfer matrix at s = 0 (z = 1) after common integrators are cancelled, infinite where a '
        'pole at that point is left')
ANCHORS = ('Transfer', 'State')
MIN = {'quick': 60}
CASE_SECONDS = 120
WH = {'State': 'harold/_system_funcs.py:dcgain', 'Transfer': 'harold/_classes.py:Transfer.dcgain'}
# a SISO entry: integrators in numerator and denominator, further factors there
SISO = [(i, j, a, b) for i in (0, 1, 2, 3) for j in (0, 1, 2, 3) for a in (0, 1, 2) for b in (0, 1, 2) if i + a <= j + b and j + b > 0]
# state: blocks 'r' regular mode, 'i' integrator, per channel pairing
DIAG = ('r', 'i', 'rr', 'ir', 'ri', 'ii', 'rrr', 'irr', 'rir', 'rri', 'iri')


def cases(tier):
    out = []
    for dt in (None, 0.5):
        for n in (1, 2, 3):
            for st in STRUCT[n]:
                for p, m in ((1, 1), (2, 1), (1, 2), (2, 2)):
                    if n == 3 and p * m > 2:
                        continue
                    out.append(('state', st, p, m, dt))
        out += [('diag', x, None, None, dt) for x in DIAG]
        out += [('siso', x, 1, 1, dt) for x in SISO]
        out += [('mimo', x, p, m, dt) for x in (((0, 0, 0, 1), (0, 1, 0, 0)), ((1, 1, 0, 1), (0, 0, 1, 2)), ((0, 1, 0, 1), (1, 1, 0, 0)),
                                                       ((0, 1, 0, 0, 0), (0, 0, 0, 1)), ((0, 0, 0, 1), (0, 1, 0, 1, 0)), ((0, 0, 0, 1, 0), (1, 1, 1, 1)),
                                                       ((0, 1, 0, 0, 0), (1, 1, 0, 1), (0, 1, 0, 0)), ((0, 0, 0, 1), (0, 2, 0, 0, 0), (0, 0, 1, 1)))
                for p, m in ((1, len(x)), (len(x), 1))]
        out += [(k, None, p, m, dt) for k in ('gain', 'tgain') for p, m in ((1, 1), (2, 1), (1, 2), (2, 2))]
        out += [('zero', (0, j, 0, 1), 1, 1, dt) for j in (0, 1)]
    return out


def name(c):
    f, x, p, m, dt = c
    k = 'discrete' if dt else 'continuous'
    if f == 'state':
        return 'State.dcgain(structure %s, %dx%d, %s)' % ('+'.join(map(str, x)), p, m, k)
    if f == 'diag':
        return 'State.dcgain(decoupled %s, %s)' % ({'r': 'regular', 'i': 'integrator'}[x] if len(x) == 1 else x, k)
    if f in ('gain', 'tgain'):
        return '%s.dcgain(static gain, %dx%d, %s)' % ('State' if f == 'gain' else 'Transfer', p, m, k)
    return 'Transfer.dcgain(%s %s, %dx%d, %s)' % (f, x, p, m, k)


def poly(name, k, ints, dt):
    """coefficients of a polynomial with `ints` integrators and k other factors"""
    es = [tm.leaf('%s%d' % (name, i), (), ('nonzero',)) for i in range(k + 1)]
    for _ in range(ints):
        if dt is None:
            es = es + [tm.ZERO]
        else:
            es = [tm.arith('sub', x, y) for x, y in zip(es + [tm.ZERO], [tm.ZERO] + es)]
    return es


def at(es, dt, ints):
    """value at the point after the integrators are removed"""
    if dt is None:
        return es[len(es) - 1 - ints]
    acc = es[0]
    for e in es[1:]:
        acc = tm.arith('add', acc, e)
    return acc


def entry(spec, tag, dt, zero=False):
    i, j, a, b = spec[:4]
    zero = zero or len(spec) > 4
    nl = [tm.leaf('n%s%d' % (tag, q), (), ('nonzero',)) for q in range(a + 1)]
    dl = [tm.leaf('d%s%d' % (tag, q), (), ('nonzero',)) for q in range(b + 1)]
    num = [tm.ZERO] if zero else poly('n' + tag, a, i, dt)
    den = poly('d' + tag, b, j, dt)
    if zero or i > j:
        want = tm.ZERO
    elif j > i:
        want = 'inf'
    else:
        want = tm.arith('div', at(nl, dt, 0), at(dl, dt, 0))
    return num, den, want


def arr1(s, es):
    return s.new_list([N('float', e) for e in es])


def run_case(I, s, c):
    f, x, p, m, dt = c
    I.general, I.eqbudget, I.limit = True, 0, 4000000
    kw = {'dt': C(dt)} if dt else {}
    cls = 'State' if f in ('state', 'diag', 'gain') else 'Transfer'
    if f in ('gain', 'tgain'):
        d = tm.leaf('D', (p, m))
        g, s = good(call(I, cls, [arr(s, d)], kw, s), cls)
        want = list(tm.entries(d))
    elif f == 'state':
        g, s = state(I, s, x, p, m, dt)
        want = list(tm.entries(gz(I, g, s, tm.ZERO if dt is None else tm.ONE)))
    elif f == 'diag':
        p = m = n = len(x)
        es = [[tm.ZERO] * n for _ in x]
        one = tm.ZERO if dt is None else tm.ONE
        for i, ch in enumerate(x):
            es[i][i] = one if ch == 'i' else tm.leaf('a%d' % i, (), ('nonzero',))
        a = tm.lit([e for r in es for e in r], (n, n))
        b = tm.lit([tm.leaf('b%d' % i, (), ('nonzero',)) if i == j else tm.ZERO for i in range(n) for j in range(n)], (n, n))
        cc = tm.lit([tm.leaf('c%d' % i, (), ('nonzero',)) if i == j else tm.ZERO for i in range(n) for j in range(n)], (n, n))
        d = tm.lit([tm.leaf('D%d%d' % (i, j), ()) for i in range(n) for j in range(n)], (n, n))
        I.general = False
        g, s = good(call(I, 'State', [arr(s, q) for q in (a, b, cc, d)], kw, s), 'State')
        I.general = True
        want = []
        for i in range(n):
            for j in range(n):
                w = tm.entries(d)[i * n + j]
                if i == j:
                    w = 'inf' if x[i] == 'i' else tm.arith('add', w, tm.arith('div', tm.arith('mul', tm.entries(b)[i * n + i], tm.entries(cc)[i * n + i]),
                                                                             tm.arith('sub', one, es[i][i])))
                want.append(w)
    elif f in ('siso', 'zero'):
        num, den, w = entry(x, '', dt, f == 'zero')
        I.general = False
        g, s = good(call(I, 'Transfer', [arr1(s, num), arr1(s, den)], kw, s), 'Transfer')
        I.general = True
        want = [w]
    else:
        es = [entry(q, 'abc'[i], dt) for i, q in enumerate(x)]
        ns, ds = [arr1(s, e[0]) for e in es], [arr1(s, e[1]) for e in es]
        if p == 1:
            ns, ds = s.new_list([s.new_list(ns)]), s.new_list([s.new_list(ds)])
        else:
            ns, ds = s.new_list([s.new_list([q]) for q in ns]), s.new_list([s.new_list([q]) for q in ds])
        I.general = False
        g, s = good(call(I, 'Transfer', [ns, ds], kw, s), 'Transfer')
        I.general = True
        want = [e[2] for e in es]
    saved, I.summaries = I.summaries, {k: v for k, v in I.summaries.items() if k != 'staircase'}
    try:
        rs = I.getattr_(g, 'dcgain', s, None)
    finally:
        I.summaries = saved

    def pred(v, t):
        r = term(v, t)
        if r is None or r.shape is None or not tm.conc(r.shape):
            raise Undecided('the gain has no term')
        if r.shape not in ((p, m),) and tm.nelem(r.shape) != p * m or r.shape != (p, m) and p * m > 1:
            return False, 'the gain has shape %s instead of %s' % (r.shape, (p, m))
        F = Facts(t)
        for k, (e, w) in enumerate(zip(tm.entries(r), want)):
            if w == 'inf':
                F.true(infinite(e), 'entry %d is not infinite' % k)
            elif infinite(e) is True:
                F.true(False, 'entry %d is infinite' % k)
            elif e.op == 'div' and tm.same(e.args[1], tm.ZERO) is True:
                F.true(False, 'entry %d is a division by zero' % k)
            else:
                F.eq(e, w, 'entry %d is not the gain at low frequency' % k)
        return F.done()
    return res(name(c), judge_total(I, rs, pred, WH[cls]), WH[cls])


def infinite(e):
    v = tm.constval(e)
    if v is not None:
        return abs(v) == float('inf')
    if e.op == 'div' and tm.same(e.args[1], tm.ZERO) is True:
        return True if tm.same(e.args[0], tm.ZERO) is False else None
    if e.op == 'add' and any(infinite(x) is True for x in e.args if isinstance(x, tm.T)):
        return True
    if e.op == 'lin':
        return True if e.args[0] in (float('inf'), -float('inf')) else None
    return None
