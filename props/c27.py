"""C27 LQR gains and Ackermann pole placement."""
from .kalman import *

RULE = ('value numbering: X is the solution of the Riccati equation of the cost that the arguments describe (the library solver is an '
        'uninterpreted function of its arguments), K the gain formed with it, the third result the eigenvalues of A-BK; for Ackermann '
        'the characteristic polynomial of A-BK is the product over the given locations; misuse has only ValueError paths')
ANCHORS = ('lqr', 'ackermann')
MIN = {'quick': 60}
CASE_SECONDS = 120
WH = 'harold/_static_ctrl_design.py:'
LOCS = {1: ('r',), 2: ('rr', 'c'), 3: ('rrr', 'cr', 'rc')}


def cases(tier):
    out = []
    for dt in (None, 1):
        for n, m, p in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2), (2, 2, 2), (3, 1, 2)):
            for on in ('state', 'output', 'Output', 'STATE', None):
                if on in ('Output', 'STATE') and (n, m, p) != (2, 1, 1):
                    continue
                for R_ in (False, True):
                    for S_ in (False, True):
                        out.append(('lqr', (n, m, p), dt, on, R_, S_, 'array'))
        for on in ('state', 'output'):
            out.append(('lqr', (2, 1, 1), dt, on, True, True, 'list'))
            out.append(('lqr', (1, 1, 1), dt, on, True, False, 'scalar'))
            out.append(('lqr', (1, 1, 1), dt, on, True, True, 'scalar'))
            out.append(('lqr', (2, 1, 1), dt, on, True, True, 'transfer'))
    for k in ('unknown', 'substring', 'empty', 'gain', 'tuple', 'Qstate', 'Qoutput', 'Rstate', 'Routput', 'Sstate', 'Soutput'):
        out.append(('lqrbad', k))
    for n in (1, 2, 3):
        for l in LOCS[n]:
            for arg in ('state', 'pair', 'dstate'):
                for form in ('list', 'array'):
                    if form == 'list' or arg == 'state':
                        out.append(('ack', n, l, arg, form))
    for k in ('two inputs', 'too few', 'too many', 'none', 'table', 'uncontrollable2', 'uncontrollable3', 'scalar'):
        out.append(('ackbad', k))
    return out


def name(c):
    if c[0] == 'lqr':
        _, (n, m, p), dt, on, R_, S_, form = c
        return 'lqr(%s %d states %d inputs %d outputs, weight_on %s%s%s, %s)' % (
            'discrete' if dt else 'continuous', n, m, p, on or 'default', ', R' if R_ else '', ', S' if S_ else '', form)
    if c[0] == 'ack':
        return 'ackermann(%s, %d states, poles %s as %s)' % (c[3], c[1], c[2], c[4])
    return {'lqrbad': 'lqr', 'ackbad': 'ackermann'}[c[0]] + '(misuse: %s)' % c[1]


def sym(nm, k):
    return tm.lit([tm.leaf('%s%d%d' % (nm, min(i, j), max(i, j)), ()) for i in range(k) for j in range(k)], (k, k))


def given(s, t, form):
    if form in ('array', 'transfer'):
        return arr(s, t)
    if form == 'scalar':
        return N('float', tm.entries(t)[0])
    r, c = t.shape
    return s.new_list([s.new_list([N('float', e) for e in tm.entries(t)[i * c:(i + 1) * c]]) for i in range(r)])


def plus(*xs):
    acc = xs[0]
    for x in xs[1:]:
        acc = tm.arith('add', acc, x)
    return acc


def lqr_case(I, s, c):
    _, (n, m, p), dt, on, R_, S_, form = c
    I.eqbudget, I.limit = 0, 2000000
    if form == 'transfer':
        g, s = good(call(I, 'Transfer', [s.new_list([N('float', tm.leaf('n%d' % i, (), ('nonzero',))) for i in range(2)]),
                                         s.new_list([C(1.)] + [N('float', tm.leaf('d%d' % i, (), ('nonzero',))) for i in range(2)])],
                         {'dt': C(dt)} if dt else {}, s), 'Transfer')
        h, s = good(call(I, 'transfer_to_state', [g], {}, s), 'transfer_to_state')
    else:
        g, s = state(I, s, STRUCT[n][0], p, m, dt)
        h = g
    a, b, cc, d = abcd(I, h, s)
    k = p if (on or '').lower() == 'output' else n
    q, r, sx = sym('Q', k), sym('R', m), tm.leaf('S', (k, m))
    args = [g, given(s, q, form)]
    kw = {}
    if R_:
        args.append(given(s, r, form))
    else:
        r = tm.eye(m)
    if S_:
        kw['S'] = given(s, sx, form)
    else:
        sx = tm.zeros((k, m))
    if on:
        kw['weight_on'] = C(on)
    rs = call(I, 'lqr', args, kw, s)
    if k == p and (on or '').lower() == 'output':
        # cost of y = C x + D u
        q0, r0, s0 = q, r, sx
        q = mm(tr(cc), q0, cc)
        sx = plus(mm(tr(cc), q0, d), mm(tr(cc), s0))
        r = plus(mm(tr(d), q0, d), mm(tr(d), s0), mm(tr(s0), d), r0)
    X = tm.uf('dare' if dt else 'care', (a, b, q, r, tm.eye(n), sx), (n, n))
    rhs = plus(mm(tr(b), X, a) if dt else mm(tr(b), X), tr(sx))
    K = tm.solve(plus(mm(tr(b), X, b), r) if dt else r, rhs, (m, n))
    E = tm.uf('eigvals', (tm.arith('sub', a, mm(b, K)),), (n,))

    def pred(v, t):
        if not isinstance(v, Tu) or len(v.items) != 3:
            return False, 'the result is not a triple'
        k_, x_, e_ = [known(x, t, None) for x in v.items]
        F = Facts(t)
        F.eq(x_, X, 'X does not solve the Riccati equation of the cost')
        F.eq(k_, K, 'K is not the optimal gain')
        F.eq(e_, E, 'the third result is not the spectrum of A-BK')
        return F.done()
    return res(name(c), judge_total(I, rs, pred, WH + 'lqr'), WH + 'lqr')


def lqr_bad(I, s, c):
    k = c[1]
    I.eqbudget, I.limit = 0, 2000000
    g, s = state(I, s, STRUCT[2][0], 1, 1)
    Q, kw = sym('Q', 2), {}
    if k in ('unknown', 'substring', 'empty'):
        kw['weight_on'] = C({'unknown': 'input', 'substring': 'put', 'empty': ''}[k])
    elif k == 'gain':
        g, s = good(call(I, 'State', [N('float', tm.leaf('d', ()))], {}, s), 'State')
        Q = sym('Q', 1)
    elif k == 'tuple':
        a, b, _ = data(STRUCT[2][0], 1, 1)
        g = Tu([arr(s, a), arr(s, b)])
    else:
        kw['weight_on'] = C(k[1:])
        if k[0] == 'Q':
            Q = sym('Q', 3)
        elif k[1:] == 'output':
            Q = sym('Q', 1)
        if k[0] == 'R':
            kw['R'] = arr(s, sym('R', 2))
        if k[0] == 'S':
            kw['S'] = arr(s, tm.leaf('S', (2, 2)))
    rs = call(I, 'lqr', [g, arr(s, Q)], kw, s)
    V = judge(I, rs, None, must='raise', raises=('ValueError', 'TypeError') if k == 'tuple' else ('ValueError',), where=WH + 'lqr')
    return res(name(c), V, WH + 'lqr')


def locs(l):
    """[(value term, kind)]"""
    out = []
    for i, ch in enumerate(l):
        x = tm.leaf('l%d' % i, (), ('nonzero',))
        if ch == 'r':
            out.append((x, 'float'))
        else:
            y = tm.arith('mul', tm.const(1j), tm.leaf('w%d' % i, (), ('nonzero',)))
            out += [(tm.arith('add', x, y), 'complex'), (tm.arith('sub', x, y), 'complex')]
    return out


def locval(s, L, form):
    if form == 'list':
        return s.new_list([N(k, t) for t, k in L])
    return s.new_arr(tm.lit([t for t, _ in L], (len(L),)), 'complex' if any(k == 'complex' for _, k in L) else 'float', (len(L),))


def ack_case(I, s, c):
    _, n, l, arg, form = c
    I.general, I.eqbudget, I.limit = True, 0, 2000000
    a, b, _ = data(STRUCT[n][0], 1, 1)
    if arg == 'pair':
        g = Tu([arr(s, a), arr(s, b)])
    else:
        g, s = state(I, s, STRUCT[n][0], 1, 1, 1 if arg == 'dstate' else None)
    L = locs(l)
    rs = call(I, 'ackermann', [g, locval(s, L, form)], {}, s)
    want = tm.ONE
    for t, _ in L:
        want = tm.arith('mul', want, tm.arith('sub', Z_, t))

    def pred(v, t):
        K = known(v, t, None)
        F = Facts(t)
        if K.shape != (1, n):
            return False, 'K has shape %s' % (K.shape,)
        cl = tm.arith('sub', tm.arith('mul', Z_, tm.eye(n)), tm.arith('sub', a, mm(b, K)))
        F.eq(det(cl), want, 'the eigenvalues of A-BK are not the given locations')
        return F.done()
    return res(name(c), judge_total(I, rs, pred, WH + 'ackermann'), WH + 'ackermann')


def det(t):
    k = t.shape[0]
    e = tm.entries(t)
    if k == 1:
        return e[0]
    acc = tm.ZERO
    for j in range(k):
        sub = tm.lit([e[i * k + q] for i in range(1, k) for q in range(k) if q != j], (k - 1, k - 1))
        x = tm.arith('mul', e[j], det(sub))
        acc = tm.arith('add' if j % 2 == 0 else 'sub', acc, x)
    return acc


def ack_bad(I, s, c):
    k = c[1]
    I.general, I.eqbudget, I.limit = True, 0, 2000000
    st = {'uncontrollable2': STRUCT[2][2], 'uncontrollable3': STRUCT[3][2]}.get(k, STRUCT[2][0])
    g, s = state(I, s, st, 1, 2 if k == 'two inputs' else 1)
    n = sum(st)
    q = {'too few': n - 1, 'too many': n + 1, 'none': 0}.get(k, n)
    if k == 'scalar':
        v = N('float', tm.leaf('l', (), ('nonzero',)))
    elif k == 'table':
        v = arr(s, tm.leaf('l', (2, 1)))
    else:
        v = locval(s, locs('r' * q), 'array')
    rs = call(I, 'ackermann', [g, v], {}, s)
    V = judge(I, rs, None, must='raise', raises=('ValueError',), where=WH + 'ackermann')
    return res(name(c), V, WH + 'ackermann')


def run_case(I, s, c):
    return {'lqr': lqr_case, 'lqrbad': lqr_bad, 'ack': ack_case, 'ackbad': ack_bad}[c[0]](I, s, c)
