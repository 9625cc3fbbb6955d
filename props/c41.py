"""C41 transmission zeros."""
from itertools import permutations
from .kalman import *

RULE = ('value numbering: the monic polynomial with the returned numbers as roots is the determinant of the system matrix pencil up to a factor, '
        'and none are returned where the pencil keeps its rank for every number; factorizations are interpreted exactly in GF(p), ranks are '
        'those of the data of the case in general position')
ANCHORS = ('transmission_zeros',)
MIN = {'quick': 40}
CASE_SECONDS = 200
WH = 'harold/_classes.py:transmission_zeros'


def cases(tier):
    out = []
    for n in (1, 2, 3):
        # full rank feedthrough, no feedthrough, feedthrough of lower rank
        out += [('square', n, p, k) for p in (1, 2) for k in range(p + 1)]
        # relative degree: chains of integrators from input to output
        out += [('degree', n, 1, r) for r in range(2, n + 1)]
        out += [('wide', n, (p, m), k) for p, m in ((1, 2), (2, 1)) for k in (0, 1)]
        # non-square with a common factor
        out += [('common', n, (p, m), k) for p, m in ((1, 2), (2, 1)) for k in (0, 1)]
        out += [('nothing', n, 1, x) for x in ('B', 'C')]
    out += [('hidden', st, 1, k) for k in (0, 1) for st in ((1, 1, 0, 0), (1, 0, 1, 0), (2, 1, 0, 0), (2, 0, 1, 0))]
    out += [('square', 4, 1, k) for k in (0, 1)]
    return out


def name(c):
    f, n, p, k = c
    sh = '%dx%d' % ((p, p) if isinstance(p, int) else p)
    if f == 'nothing':
        return 'transmission_zeros(%d states, %s = 0)' % (n, k)
    if f == 'degree':
        return 'transmission_zeros(%d states, relative degree %d)' % (n, k)
    if f == 'hidden':
        return 'transmission_zeros(structure %s, feedthrough rank %d)' % ('+'.join(map(str, n)), k)
    return 'transmission_zeros(%s%d states, %s, feedthrough rank %d)' % ('common factor, ' if f == 'common' else '', n, sh, k)


def L(nm, r, c):
    return tm.lit([tm.leaf('%s%d%d' % (nm, i, j), (), ('nonzero',)) for i in range(r) for j in range(c)], (r, c))


def outer(x, y):
    xs, ys = tm.entries(x), tm.entries(y)
    return tm.lit([tm.arith('mul', a, b) for a in xs for b in ys], (len(xs), len(ys)))


def padd(a, b, f=1):
    k = max(len(a), len(b))
    a, b = a + [tm.ZERO] * (k - len(a)), b + [tm.ZERO] * (k - len(b))
    return [tm.arith('add' if f > 0 else 'sub', x, y) for x, y in zip(a, b)]


def pmul(a, b):
    out = [tm.ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = tm.arith('add', out[i + j], tm.arith('mul', x, y))
    return out


def det(rows):
    """determinant of a matrix of polynomials (ascending coefficients)"""
    k = len(rows)
    if k == 1:
        return rows[0][0]
    out = [tm.ZERO]
    for j in range(k):
        if all(tm.is_zero(e) for e in rows[0][j]):
            continue
        out = padd(out, pmul(rows[0][j], det([r[:j] + r[j + 1:] for r in rows[1:]])), 1 if j % 2 == 0 else -1)
    return out


def pencil(a, b, c, d):
    """coefficients of det [[s I - A, -B], [C, D]], descending, leading zeros removed"""
    n, p = a.shape[0], d.shape[0]
    g = lambda t, i, j: tm.entries(t)[i * t.shape[1] + j]
    rows = [[[tm.neg(g(a, i, j))] + ([tm.ONE] if i == j else []) for j in range(n)] + [[tm.neg(g(b, i, j))] for j in range(p)] for i in range(n)]
    rows += [[[g(c, i, j)] for j in range(n)] + [[g(d, i, j)] for j in range(p)] for i in range(p)]
    es = det(rows)
    while es and tm.same(es[-1], tm.ZERO) is True:
        es.pop()
    return es[::-1]


def data_of(c):
    f, n, p, k = c
    if f == 'hidden':
        a, b, cc = data(n, 1, 1)
        return a, b, cc, L('d', 1, 1) if k else tm.zeros((1, 1)), None
    q, m = (p, p) if isinstance(p, int) else p
    a, b, cc = L('a', n, n), L('b', n, m), L('c', q, n)
    d = tm.zeros((q, m)) if not k else L('d', q, m) if k == min(q, m) else outer(L('e', q, 1), L('f', 1, m))
    if f == 'nothing':
        d = L('d', q, m)
        if k == 'B':
            b = tm.zeros((n, m))
        else:
            cc = tm.zeros((q, n))
    if f == 'degree':
        # x_r' ... x_1 = y : the input reaches the output after k integrations
        es = list(tm.entries(a))
        for i in range(k - 1):
            for j in range(n):
                if j > i + 1:
                    es[i * n + j] = tm.ZERO
        a = tm.lit(es, (n, n))
        b = tm.lit([tm.ZERO] * (k - 1) + list(tm.entries(b))[k - 1:], (n, 1))
        cc = tm.lit([tm.entries(cc)[0]] + [tm.ZERO] * (n - 1), (1, n))
        d = tm.zeros((1, 1))
    sub = None
    if f == 'common':
        g = L('g', 1, 2) if q == 1 else L('g', 2, 1)
        b1, c1, d1 = L('b', n, 1), L('c', 1, n), L('d', 1, 1) if k else tm.zeros((1, 1))
        sub = (a, b1, c1, d1)
        b, cc = (outer(b1, g), c1) if q == 1 else (b1, outer(g, c1))
        d = tm.zeros((q, m)) if not k else outer(d1, g) if q == 1 else outer(g, d1)
    return a, b, cc, d, sub


def run_case(I, s, c):
    f = c[0]
    I.general, I.eqbudget, I.limit = True, 0, 4000000
    a, b, cc, d, sub = data_of(c)
    if f in ('wide', 'nothing'):
        want = []
    else:
        es = pencil(*(sub or (a, b, cc, d)))
        want = [tm.arith('div', e, es[0]) for e in es]
    saved, I.summaries = I.summaries, {}
    try:
        rs = call(I, 'transmission_zeros', [arr(s, x) for x in (a, b, cc, d)], {}, s)
    finally:
        I.summaries = saved

    def pred(v, t):
        x = known(v, t, None)
        k = max(len(want) - 1, 0)
        if tm.nelem(x.shape) != k:
            return False, '%d zeros instead of %d' % (tm.nelem(x.shape), k)
        if not k:
            return True, 'no zeros'
        es = [e.args[1] if e.op == 'uf' and e.args[0] == 'real' else e for e in tm.entries(x)]
        # complex pairs and real zeros both occur on open sets of data
        t.assume = {q: b for q, b in t.assume.items() if not (q.op == 'uf' and q.args[:2] == ('cond', 'realclose'))}
        F = Facts(t)
        F.eq(tm.uf('poly', (tm.lit(es, (k,)),), (k + 1,)), tm.lit(want, (k + 1,)), 'the numbers are not the zeros of the system matrix')
        return F.done()
    return res(name(c), judge_total(I, rs, pred, WH), WH)
