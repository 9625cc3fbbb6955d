"""C36 system norms."""
from .formula import *

RULE = ('value numbering: the H2 norm is the square root of trace(C X C^T + D D^T) with X the solution of the Lyapunov equation of the model '
        '(D must vanish for continuous models), the H-infinity norm of a static gain is its spectral norm, both are infinite for every model '
        'with a pole outside the stability region; other norms are refused')
ANCHORS = ('system_norm',)
MIN = {'quick': 150}
CASE_SECONDS = 60
WH = 'harold/_system_props.py:system_norm'
# diagonals of A inside and outside the stability region
POLES = {None: (((-1,), True), ((-0.25,), True), ((-3, -2), True), ((-2, -2), True), ((-5, -0.5), True), ((0,), False), ((1,), False), ((0.5,), False),
                ((-1, 0), False), ((-1, 0.5), False), ((0.5, -1), False), ((-0.5, 2), False), ((-1 + 2j,), True), ((-0.5 + 0.5j,), True), ((2j,), False), ((0.25 + 1j,), False)),
         0.5: (((0,), True), ((0.5,), True), ((-0.5,), True), ((0.5, -0.25), True), ((-0.75, -0.5), True), ((1,), False), ((-1,), False), ((2,), False),
               ((-2,), False), ((0.5, 1), False), ((-1, 0.5), False), ((0.25, -3), False), ((-1.5, 0), False), ((0.25 + 0.5j,), True), ((-0.5 + 0.75j,), True), ((0.75 + 1j,), False), ((-0.5 + 1.5j,), False), ((1j,), False))}
POLES[1] = POLES[0.5]


def cases(tier):
    out = []
    for dt in (None, 0.5, 1):
        for d, st in POLES[dt]:
            for p, m in ((1, 1), (2, 1), (1, 2), (2, 2)):
                for D in ('0', 'd'):
                    out.append(('h2', d, st, p, m, D, dt))
                if not st:
                    out.append(('hinf', d, st, p, m, 'd', dt))
        for p, m in ((1, 1), (2, 2), (1, 2), (2, 3)):
            for D in ('0', 'd'):
                for k in ('gain', 'tgain'):
                    out += [(f, (), True, p, m, D + k, dt) for f in ('h2', 'hinf')]
        for d, st in POLES[dt]:
            if len(d) == 1 and not isinstance(d[0], complex):
                out += [('h2', d, st, 1, 1, D + 'tf', dt) for D in '0d']
                out += [('hinf', d, st, 1, 1, '0tf', dt)] if not st else []
            if st:
                out += [('hinf', d, st, p, m, 'noB', dt) for p, m in ((1, 1), (2, 1))] + [('hinf', d, st, p, m, 'noC', dt) for p, m in ((1, 1), (1, 2))]
                out += [('h2', d, st, 1, 1, x, dt) for x in ('0noB', '0noC')]
    out += [('bad', x, True, 1, 1, '', None) for x in ('inf', 3, 1, 0, -2, 'fro')]
    return out


def name(c):
    f, d, st, p, m, D, dt = c
    if f == 'bad':
        return 'system_norm(State, p=%r)' % (d,)
    return 'system_norm(%s %dx%d, %sdt=%s, p=%s)' % ('poles ' + ','.join(map(str, d)) if d else 'gain', p, m, D + ', ' if D else '', dt, '2' if f == 'h2' else 'inf')


def run_case(I, s, c):
    f, dg, stable, p, m, D, dt = c
    I.general, I.eqbudget, I.limit = True, 0, 2000000
    n = sum(2 if isinstance(z, complex) else 1 for z in dg) if f != 'bad' else 1
    kw = {'dt': C(dt)} if dt else {}
    L = lambda nm, r, q: tm.lit([tm.leaf('%s%d%d' % (nm, i, j), (), ('nonzero',)) for i in range(r) for j in range(q)], (r, q))
    ar = lambda t: s.new_arr(t, 'float', t.shape)
    tA = realized(dg) if f != 'bad' else L('a', 1, 1)
    tB = tm.zeros((n, m)) if 'noB' in D else L('b', n, m)
    tC = tm.zeros((p, n)) if 'noC' in D else L('c', p, n)
    tD = tm.zeros((p, m)) if D.startswith('0') else L('d', p, m)
    if D.endswith('tgain'):
        args = [ar(tD)]
        g, s = good(call(I, 'Transfer', args, kw, s), 'Transfer')
    elif D.endswith('gain'):
        g, s = good(call(I, 'State', [ar(tD)], kw, s), 'State')
    elif D.endswith('tf'):
        # (num) / (q - pole)
        b0, d0 = tm.entries(tB)[0], tm.entries(tD)[0]
        tC = tm.lit([tm.ONE], (1, 1))
        pl = tm.const(dg[0])
        num = [d0, tm.arith('sub', b0, tm.arith('mul', d0, pl))] if D[0] == 'd' else [b0]
        g, s = good(call(I, 'Transfer', [s.new_arr(tm.lit(num, (len(num),)), 'float', (len(num),)), s.new_list([C(1), C(-dg[0])])], kw, s), 'Transfer')
    else:
        g, s = good(call(I, 'State', [ar(tA), ar(tB), ar(tC), ar(tD)], kw, s), 'State')
    if f == 'bad':
        return res(name(c), judge(I, call(I, 'system_norm', [g], {'p': C(dg)}, s), None, must='raise', raises=('ValueError',), where=WH), WH)
    rs = call(I, 'system_norm', [g], {'p': C(2) if f == 'h2' else C(float('inf'))}, s)
    inf = not stable or f == 'h2' and dt is None and not D.startswith('0')

    def pred(v, t):
        isinf = isinstance(v, C) and v.v == float('inf')
        if inf:
            return (True, 'infinite') if isinf else (False, 'a finite norm is returned where it is infinite')
        if isinf:
            return False, 'an infinite norm is returned where it is finite'
        x = term(v, t)
        if x is None or x.shape is None or not tm.conc(x.shape):
            return None, 'unknown value'
        if tm.nelem(x.shape) != 1:
            return False, 'not a number'
        x = tm.entries(x)[0]
        if f == 'hinf':
            u = unroot(x)
            e = list(tm.entries(tD))
            if len(e) == 1 or all(tm.is_zero(k) for k in e):
                r = agree(t, tm.arith('mul', x, x), tm.arith('mul', e[0], e[0]))
                if r:
                    return True, 'spectral norm'
            if x.op == 'uf' and x.args[0] in ('norm2', 'norm') or any(y.op == 'uf' and y.args[0] == 'svd_s' for y in tm.walk(x)):
                r = agree(t, x, spectral(I, t, tD))
                return (True, 'spectral norm') if r else (None, 'not comparable') if r is None else (False, 'not the spectral norm of the gain')
            r = agree(t, x, spectral(I, t, tD))
            return (True, 'spectral norm') if r else (None, 'not comparable')
        want = trace(tm.matmul(tD, tm.transpose(tD)))
        if n and 'gain' not in D:
            X = lyap(tA, tm.matmul(tB, tm.transpose(tB)), n, dt)
            want = tm.arith('add', want, trace(tm.matmul(tm.matmul(tC, X), tm.transpose(tC))))
        r = agree(t, unroot(x), want)
        return (True, 'H2 norm') if r else (None, 'not comparable') if r is None else (False, 'the square is not trace(C X C^T + D D^T)')
    return res(name(c), judge_total(I, rs, pred, WH), WH)


def realized(poles):
    """real block triangular matrix with the given eigenvalues (a complex number stands for the pair)"""
    blocks = [[[z.real, z.imag], [-z.imag, z.real]] if isinstance(z, complex) else [[z]] for z in poles]
    n = sum(len(b) for b in blocks)
    M = [[1 if j > i else 0 for j in range(n)] for i in range(n)]
    k = 0
    for b in blocks:
        for i, r in enumerate(b):
            M[k + i][k:k + len(b)] = r
        k += len(b)
    return tm.lit([tm.const(x) for r in M for x in r], (n, n))


def unroot(x):
    """the square of a value"""
    if x.op == 'uf' and x.args[0] == 'sqrt':
        return x.args[1]
    return tm.arith('mul', x, x)


def trace(t):
    n = t.shape[0]
    e, r = tm.entries(t), tm.ZERO
    for i in range(n):
        r = tm.arith('add', r, e[i * n + i])
    return r


def lyap(A, Q, n, dt):
    """X with A X + X A^T + Q = 0 (A X A^T - X + Q = 0)"""
    a, q = tm.entries(A), tm.entries(Q)
    M = []
    for i in range(n):
        for j in range(n):
            row = [tm.ZERO] * (n * n)
            for k in range(n):
                if dt is None:
                    row[k * n + j] = tm.arith('add', row[k * n + j], a[i * n + k])
                    row[i * n + k] = tm.arith('add', row[i * n + k], a[j * n + k])
                else:
                    for l in range(n):
                        row[k * n + l] = tm.arith('add', row[k * n + l], tm.arith('mul', a[i * n + k], a[j * n + l]))
            if dt is not None:
                row[i * n + j] = tm.arith('sub', row[i * n + j], tm.ONE)
            M += row
    x = tm.solve(tm.lit(M, (n * n, n * n)), tm.lit([tm.neg(e) for e in q], (n * n, 1)), (n * n, 1))
    return tm.reshape(x, (n, n))


def spectral(I, t, D):
    """largest singular value as the analyser writes it"""
    from absint.ext import REG
    v = REG['scipy.linalg.norm'](I, [t.new_arr(D, 'float', D.shape)], {'ord': C(2)}, t, None)[0][0]
    return tm.entries(term(v, t))[0]
