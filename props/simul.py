"""Simulation calls: operands and the sampled state recursion."""
from .disc import *

WS = 'harold/_time_domain.py:'
H_ = tm.leaf('h', (), ('pos', 'nonzero'))
T0 = tm.leaf('t0', ())


def specs(dts=(None, 'T')):
    out = []
    for dt in dts:
        out += [('S', n, p, m, dt) for n in (1, 2) for p, m in ((1, 1), (2, 2), (1, 2), (2, 1))]
        out += [('S', 2, 2, 3, dt), ('S', 3, 2, 1, dt), ('S', 2, 1, 1, dt, 'D0')]
        out += [('T', 1, 1, dt, d) for d in ((1, 2), (2, 3), (2, 2))] + [('T', p, m, dt, (1, 2)) for p, m in ((1, 2), (2, 1))]
        out += [(k, p, m, dt) for k in ('Sg', 'Tg') for p, m in ((1, 1), (2, 2), (1, 2), (2, 1), (2, 3))]
    return out


def times(s, K, dt, form='arr', start=T0, step=None):
    """evenly spaced time vector: value and entries"""
    h = step if step is not None else (H_ if dt is None else T_)
    es = [tm.arith('add', start, tm.arith('mul', tm.const(k), h)) for k in range(K)]
    if form == 'list':
        return s.new_list([N('float', e) for e in es]), es
    sh = {'arr': (K,), 'row': (1, K), 'col': (K, 1)}[form]
    return s.new_arr(tm.lit(es, sh), 'float', sh), es


def inputs(s, K, m, form='2d'):
    es = [[tm.leaf('u%d_%d' % (k, j), ()) for j in range(m)] for k in range(K)]
    flat = [e for r in es for e in r]
    if form == '1d':
        return s.new_arr(tm.lit(flat, (K,)), 'float', (K,)), es
    if form == 'list':
        return s.new_list([N('float', e) for e in flat]), es
    if form == 'nested':
        return s.new_list([s.new_list([N('float', e) for e in r]) for r in es]), es
    dt = 'int' if form == 'int' else 'float'
    return s.new_arr(tm.lit(flat, (K, m)), dt, (K, m)), es


def initial(s, n, form):
    if form is None:
        return None, [tm.ZERO] * n
    es = [tm.leaf('x0_%d' % k, ()) for k in range(n)]
    if form == 'list':
        return s.new_list([N('float', e) for e in es]), es
    sh = {'arr': (n,), 'row': (1, n), 'col': (n, 1)}[form]
    return s.new_arr(tm.lit(es, sh), 'float', sh), es


def sampled(I, v, s, h):
    """(A, B, C, D) of the model the simulation steps through, as terms"""
    if cls_of(v, s) == 'Transfer':
        v, s = good(call(I, 'transfer_to_state', [v], {}, s))
    a, b, c, d = abcd(I, v, s)
    if a.shape[0] == 0 or h is None:
        return a, b, c, d
    F = tm.uf('expm', (tm.arith('mul', a, h),), a.shape)
    x = tm.matmul(tm.arith('sub', F, tm.eye(a.shape[0])), b)
    return F, tm.solve(a, x, x.shape), c, d


def col(es):
    return tm.lit(es, (len(es), 1))


def response(mats, us, x0):
    """[[y_i(k)]] for inputs us[k][j]"""
    a, b, c, d = mats
    n = a.shape[0]
    x = col(x0) if n else None
    out = []
    for u in us:
        y = tm.matmul(d, col(u))
        if n:
            y = tm.arith('add', tm.matmul(c, x), y)
            x = tm.arith('add', tm.matmul(a, x), tm.matmul(b, col(u)))
        out.append(list(tm.entries(y)))
    return out


def channel(us, j):
    return [[e if k == j else tm.ZERO for k, e in enumerate(r)] for r in us]


def pair(v, t):
    """terms of (response, time) or None"""
    if not isinstance(v, Tu) or len(v.items) != 2:
        return None
    return term(v.items[0], t), term(v.items[1], t)


def yshape(g, K, per):
    p, m = oshape(g)
    return (K, p, m) if per and m > 1 else (K, p)


def wanted(I, a, s, g, us, x0, h, per):
    """flat list of expected response entries in C order"""
    p, m = oshape(g)
    mats = sampled(I, a, s, h if odt(g) is None else None)
    if not (per and m > 1):
        return [e for r in response(mats, us, x0) for e in r]
    rs = [response(mats, channel(us, j), x0) for j in range(m)]
    return [rs[j][k][i] for k in range(len(us)) for i in range(p) for j in range(m)]
