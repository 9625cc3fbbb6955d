"""C16 closing a loop gives the closed-loop transfer matrix."""
from .formula import *

RULE = ('value numbering: the transfer matrix of feedback(G, H) is compared with (I -/+ G H)^-1 G as a rational function by '
        'random interpretation, for every combination of representation kinds, dynamic/static operands, zero/nonzero '
        'feedthrough and both signs; exactly singular loops have to be rejected with ValueError')
ANCHORS = ('feedback', 'State', 'Transfer', 'matrix_slice')
MIN = {'quick': 150}


def ops_(sh):
    p, m = sh
    out = [('S', 2, p, m, 'T'), ('S', 2, p, m, 'T', 'D0'), ('S', 1, p, m, 'T'), ('Sg', p, m, 'T'), ('Tg', p, m, 'T')]
    if p == m == 1:
        out += [('T', 1, 1, 'T'), ('T', 1, 1, 'T', (2, 2))]
    else:
        out += [('T', p, m, 'T', (1, 2)), ('T', p, m, 'T', (2, 2))]
    return out


def cases(tier):
    out = []
    for sh in ((1, 1), (2, 2), (1, 2), (2, 1), (2, 3)):
        for l in ops_(sh):
            for r in ops_(sh[::-1]):
                if l[0] == r[0] == 'T' and sh != (1, 1) and (len(l) > 4 and l[4] == (2, 2) or sh == (2, 3)):
                    continue
                for neg in (True, False):
                    out.append((l, r, neg))
        for l in ops_(sh):
            for r in ((('f',), ('arr', (1, 1))) if sh == (1, 1) else (('arr', sh[::-1]),)):
                for neg in (True, False):
                    out.append((l, r, neg))
                    if sh[0] == sh[1]:
                        out.append((r, l, neg))
    for v in (True, False):
        for k in ('S', 'Sg', 'T', 'num'):
            out.append(('sing', k, v))
    return out


def feeds(x):
    """nonzero direct feedthrough"""
    if x[0] == 'S':
        return len(x) < 6
    if x[0] == 'T':
        n, d = x[4] if len(x) > 4 else (2, 3)
        return n == d
    return True


def name(c):
    if c[0] == 'sing':
        return 'feedback of a singular loop, %s, %s' % (c[1], 'negative' if c[2] else 'positive')
    l, r, neg = c
    return 'feedback(%s, %s, negative=%s)%s' % (sname(l), sname(r), neg, ' feedthrough in both' if feeds(l) and feeds(r) else '')


WHERE = 'harold/_bd_algebra.py:feedback'


def run_case(I, s, c):
    if c[0] == 'sing':
        return singular(I, s, c)
    l, r, neg = c
    a, s = build(I, s, l, 'a')
    b, s = build(I, s, r, 'b')
    g, h = gz(I, a, s), gz(I, b, s)
    p = g.shape[0]
    loop = tm.arith('add' if neg else 'sub', tm.eye(p), tm.matmul(g, h))
    want = tm.solve(loop, g, g.shape)
    I.eqbudget = 0
    rs = call(I, 'feedback', [a, b], {'negative': C(neg)}, s)
    V = judge_values(I, rs, value_pred(I, want, 'the closed loop'), WHERE)
    key = name(c)
    if neg and feeds(l) and feeds(r) and V.status() == 'violation':
        # the recorded defect: I - ND stands where I + ND belongs; any other deviation is reported apart
        W = judge_values(I, rs, value_pred(I, wrong_sign(I, s, a, b, g, h), 'the closed loop'), WHERE)
        if W.status() == 'ok':
            key += ' [loop matrix I-ND]'
    return res(key, V, WHERE)


def feedthrough(I, v, s):
    k = cls_of(v, s)
    if k == 'State':
        return mterm(I, v, s, 'd')
    if k == 'Transfer':
        n, d = numden(I, v, s, 'num'), numden(I, v, s, 'den')
        return tm.lit([tm.arith('div', x[0], y[0]) for p, q in zip(n, d) for x, y in zip(p, q)], (len(n), len(n[0])))
    return gz(I, v, s)


def wrong_sign(I, s, a, b, g, h):
    nd = tm.matmul(feedthrough(I, b, s), feedthrough(I, a, s))
    m = g.shape[1]
    nd2 = tm.arith('mul', tm.const(2), nd)
    l = tm.arith('sub', tm.arith('add', tm.eye(m), tm.matmul(h, g)), nd2)
    return tm.matmul(g, tm.solve(l, tm.arith('sub', tm.eye(m), nd2), (m, m)))


def singular(I, s, c):
    _, k, neg = c
    one, h = C(1.0), C(-1.0 if neg else 1.0)
    if k == 'S':
        rs = call(I, 'State', [A_(s, 'A', (2, 2)), A_(s, 'B', (2, 1)), A_(s, 'C', (1, 2)), s.new_arr(tm.eye(1), 'float')], {}, s)
        g, s = good(rs, 'State')
    elif k == 'Sg':
        g, s = good(call(I, 'State', [one], {}, s), 'State')
    elif k == 'T':
        n = s.new_list([C(1.0), N('float', tm.leaf('n1'))])
        d = s.new_list([C(1.0), N('float', tm.leaf('d1'))])
        g, s = good(call(I, 'Transfer', [n, d], {}, s), 'Transfer')
    else:
        g = one
    rs = call(I, 'feedback', [g, h], {'negative': C(neg)}, s)
    V = judge(I, rs, None, 'raise', where=WHERE)
    return res(name(c), V, WHERE)
