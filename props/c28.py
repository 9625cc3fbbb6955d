"""C28 controllability and observability matrices."""
from .kalman import *

RULE = ('value numbering: the returned matrix is [B AB ... A^(n-1)B] (its dual for observability); the returned T is orthogonal and '
        "turns it into a matrix with mutually orthogonal rows (columns), zero ones last; the compressed result is that product; the "
        'rank and the yes/no verdicts are those of the Kalman structure of the case; singular values are interpreted exactly in GF(p)')
ANCHORS = ('controllability_matrix', 'observability_matrix', 'is_kalman_controllable', 'is_kalman_observable')
MIN = {'quick': 60}
CASE_SECONDS = 120
WH = 'harold/_kalman_ops.py:'


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for st in STRUCT[n]:
            for w in 'co':
                k = rank(st, w)
                for m in (1, 2):
                    if k == 3 or n == 3 and k == 2 and m == 2:
                        forms = ('verdict',) if m == 1 else ()
                    else:
                        forms = ('plain', 'compress', 'verdict')
                    for f in forms:
                        for arg in ('state', 'pair', 'list'):
                            if arg == 'list' and (n == 3 or max(st) < n):
                                continue
                            out.append((w, st, m, f, arg))
            if n > 1 and rank(st, 'c') == n == 2:
                out.append(('c', st, 3, 'plain', 'state'))
    return out


def name(c):
    w, st, m, f, arg = c
    fn = {'c': 'controllability_matrix', 'o': 'observability_matrix'}[w] if f != 'verdict' else \
        {'c': 'is_kalman_controllable', 'o': 'is_kalman_observable'}[w]
    return '%s(%s, structure %s, %d channels%s)' % (fn, arg, '+'.join(map(str, st)), m, ', compress' if f == 'compress' else '')


def run_case(I, s, c):
    w, st, m, f, arg = c
    n = sum(st)
    p, m_ = (1, m) if w == 'c' else (m, 1)
    a, b, cc = data(st, p, m_)
    I.general, I.eqbudget, I.limit = True, 0, 2000000
    if arg == 'state':
        g, s = state(I, s, st, p, m_)
    else:
        ts = (a, b) if w == 'c' else (a, cc)
        if arg == 'list':
            g = Tu([s.new_list([s.new_list([N('float', e) for e in tm.entries(t)[i * t.shape[1]:(i + 1) * t.shape[1]]])
                                for i in range(t.shape[0])]) for t in ts])
        else:
            g = Tu([arr(s, t) for t in ts])
    fn = name(c).split('(')[0]
    rs = call(I, fn, [g], {'compress': C(True)} if f == 'compress' else {}, s)
    k = rank(st, w)
    x = krylov(a, b) if w == 'c' else krylov(tr(a), tr(cc))

    def pred(v, t):
        if f == 'verdict':
            if not isinstance(v, C):
                return None, 'undetermined answer'
            return v.v is (k == n) or v.v == (k == n), 'the answer for rank %d of %d is %r' % (k, n, v.v)
        if not isinstance(v, Tu) or len(v.items) != 3:
            return False, 'the result is not a triple'
        M, T, r = v.items
        M, T = known(M, t, None), known(T, t, None)
        if w == 'o':
            M = tr(M)
        F = Facts(t)
        if T.shape != (n, n):
            return False, 'T has shape %s' % (T.shape,)
        F.eq(mm(tr(T), T), tm.eye(n), 'T is not orthogonal')
        y = mm(tr(T), x)
        F.eq(offdiag(mm(y, tr(y))), tm.zeros((n * n - n,)), 'T does not compress the matrix')
        if k < n:
            F.eq(tm.lit(tm.entries(y)[k * y.shape[1]:], ((n - k) * y.shape[1],)), tm.zeros(((n - k) * y.shape[1],)),
                 'the rows beyond the rank are not zero')
        F.eq(M, y if f == 'compress' else x, 'the compressed matrix is not T^T Cc (Co T)' if f == 'compress' else
             'the matrix is not made of B, AB, ... (C, CA, ...)')
        if isinstance(r, C):
            F.true(r.v == k, 'the rank is reported as %r instead of %d' % (r.v, k))
        else:
            F.true(None, 'undetermined rank')
        return F.done()
    return res(name(c), judge_total(I, rs, pred, WH + fn), WH + fn)
