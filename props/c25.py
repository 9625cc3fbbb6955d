"""C25 partitions, unit vectors, kernels and singular value factors."""
from .kalman import *

RULE = ('value numbering: the four blocks of a slice are the blocks of the matrix with the requested corner shape; unit vectors are the '
        'chosen columns (rows) of the identity; stacked state matrices are [A B; C D]; kernel bases are orthonormal, annihilated and '
        'of the right dimension; singular value factors are orthogonal and multiply to the matrix')
ANCHORS = ('matrix_slice', 'e_i', 'concatenate_state_matrices', 'haroldker', 'haroldsvd')
MIN = {'quick': 200}
CASE_SECONDS = 60
AL = 'harold/_aux_linalg.py:'
NTH = {'0': 0, '1': 1, '-1': -1, '[0]': [0], '[1, 0]': [1, 0], '[0, 2, 2]': [0, 2, 2], '[-1, 1]': [-1, 1], '1:3': (1, 3, None), ':': (None,) * 3,
       '::-1': (None, None, -1), '1:': (1, None, None), '1:5:2': (1, 5, 2)}
RANKS = [((2, 2), 1), ((2, 2), 2), ((2, 3), 2), ((3, 2), 2), ((1, 2), 1), ((1, 3), 1), ((3, 1), 1), ((2, 3), 1), ((3, 2), 1), ((3, 3), 1),
         ((3, 3), 2), ((2, 4), 2), ((4, 2), 1), ((2, 2), 0), ((2, 1), 0)]


def cases(tier):
    out = []
    for r in (1, 2, 3):
        for c in (1, 2, 3):
            for z in range(r + 1):
                for w in range(c + 1):
                    out += [('slice', (r, c), (z, w), k) for k in ('nw', 'ne', 'sw', 'se', None)]
    out += [('slice', (2, 2), (1, 1), k) for k in ('n', '', 'wn', 'all')]
    for w in (1, 2, 3, 5):
        for k, v in NTH.items():
            try:
                pick(w, v)
            except IndexError:
                continue
            out += [('e_i', w, k, o) for o in ('c', 'r', None)]
    for g in (('S', 1, 1, 1, None), ('S', 2, 1, 2, None), ('S', 2, 2, 1, 0.5), ('S', 3, 2, 2, None), ('Sg', 1, 1, None), ('Sg', 2, 3, None)):
        out.append(('concat', g))
    for sh, r in RANKS:
        for k in ('array', 'list'):
            out += [('ker', sh, r, side, k) for side in ('right', 'left', None)]
            out += [('svd', sh, r, rk, k) for rk in (True, False)]
    out += [('ker', (2, 2), 1, x, 'array') for x in ('up', '')]
    return out


def pick(w, v):
    ks = list(range(w))
    if isinstance(v, tuple):
        return ks[slice(*v)]
    return [ks[i] for i in v] if isinstance(v, list) else [ks[v]]


def name(c):
    k = c[0]
    if k == 'slice':
        return 'matrix_slice(%dx%d, %s%s)' % (c[1] + (c[2],) + (', %r' % c[3] if c[3] is not None else '',))
    if k == 'e_i':
        return 'e_i(%d, %s%s)' % (c[1], c[2], ', %r' % c[3] if c[3] else '')
    if k == 'concat':
        return 'concatenate_state_matrices(%s)' % sname(c[1])
    if k == 'ker':
        return 'haroldker(%dx%d %s of rank %d%s)' % (c[1] + (c[4], c[2], ', %r' % c[3] if c[3] is not None else ''))
    return 'haroldsvd(%dx%d %s of rank %d%s)' % (c[1] + (c[4], c[2], ', also_rank' if c[3] else ''))


def lowrank(sh, r):
    """matrix of leaves of the given rank"""
    if r == min(sh):
        return tm.lit([tm.leaf('m%d%d' % (i, j), ()) for i in range(sh[0]) for j in range(sh[1])], sh)
    if r == 0:
        return tm.lit([tm.ZERO] * (sh[0] * sh[1]), sh)
    x = tm.lit([tm.leaf('x%d%d' % (i, j), ()) for i in range(sh[0]) for j in range(r)], (sh[0], r))
    y = tm.lit([tm.leaf('y%d%d' % (i, j), ()) for i in range(r) for j in range(sh[1])], (r, sh[1]))
    return mm(x, y)


def sub(t, rs, cs):
    es = tm.entries(t)
    return tm.lit([es[i * t.shape[1] + j] for i in rs for j in cs], (len(rs), len(cs)))


def nested(s, t):
    es, (r, c) = tm.entries(t), t.shape
    return s.new_list([s.new_list([N('float', e) if e.op != 'const' else C(float(e.args[0])) for e in es[i * c:(i + 1) * c]])
                       for i in range(r)])


def run_case(I, s, c):
    k = c[0]
    I.general, I.eqbudget = True, 0
    if k == 'slice':
        (r, q), (z, w), cn = c[1:]
        M = tm.leaf('M', (r, q))
        where = AL + 'matrix_slice'
        rs = call(I, 'matrix_slice', [arr(s, M), Tu([C(z), C(w)])] + ([C(cn)] if cn is not None else []), {}, s)
        if cn not in ('nw', 'ne', 'sw', 'se', None):
            return res(name(c), judge(I, rs, None, must='raise', where=where), where)
        cn = cn or 'nw'
        p = z if cn[0] == 'n' else r - z
        m = w if cn[1] == 'w' else q - w
        want = [sub(M, a, b) for a in (range(p), range(p, r)) for b in (range(m), range(m, q))]

        def pred(v, t):
            if not isinstance(v, Tu) or len(v.items) != 4:
                return False, 'the result is not a quadruple'
            F = Facts(t)
            for x, y, n in zip(v.items, want, ('upper left', 'upper right', 'lower left', 'lower right')):
                F.eq(known(x, t, None), y, 'the %s block is wrong' % n)
            return F.done()
    elif k == 'e_i':
        w, key, o = c[1:]
        v = NTH[key]
        where = AL + 'e_i'
        idx = s.new_list([C(i) for i in v]) if isinstance(v, list) else SL(*[C(x) for x in v]) if isinstance(v, tuple) else C(v)
        rs = call(I, 'e_i', [C(w), idx], {'output': C(o)} if o else {}, s)
        ks = pick(w, v)
        E = sub(tm.eye(w), range(w), ks)
        want = tr(E) if o == 'r' else E

        def pred(v, t):
            F = Facts(t)
            F.eq(known(v, t, None), want, 'the result is not the chosen part of the identity')
            return F.done()
    elif k == 'concat':
        where = 'harold/_classes.py:concatenate_state_matrices'
        g, s = build(I, s, c[1], 'a')
        a, b, cc, d = abcd(I, g, s)
        rs = call(I, 'concatenate_state_matrices', [g], {}, s)
        want = d
        if c[1][0] == 'S':
            n, p, m = c[1][1:4]
            top = tm.concat([a, b], 1, (n, n + m))
            want = tm.concat([top, tm.concat([cc, d], 1, (p, n + m))], 0, (n + p, n + m))

        def pred(v, t):
            F = Facts(t)
            F.eq(known(v, t, None), want, 'the result is not [A B; C D]')
            return F.done()
    else:
        sh, r, o, kind = c[1:]
        M = lowrank(sh, r)
        x = arr(s, M) if kind == 'array' else nested(s, M)
        fn = 'haroldker' if k == 'ker' else 'haroldsvd'
        where = AL + fn
        if k == 'ker':
            rs = call(I, fn, [x] + ([C(o)] if o is not None else []), {}, s)
            if o not in ('left', 'right', None):
                return res(name(c), judge(I, rs, None, must='raise', where=where), where)
            N_ = tr(M) if o == 'left' else M
        else:
            rs = call(I, fn, [x], {'also_rank': C(True)} if o else {}, s)

        def pred(v, t):
            F = Facts(t)
            if k == 'ker':
                K = known(v, t, None)
                q = N_.shape[1]
                dim = q - r
                if K.shape != (q, max(dim, 1)):
                    return False, 'the basis has shape %s for a kernel of dimension %d' % (K.shape, dim)
                if dim == 0:
                    F.eq(K, tm.zeros((q, 1)), 'the basis of the trivial kernel is not zero')
                else:
                    F.eq(mm(N_, K), tm.zeros((N_.shape[0], dim)), 'the matrix does not annihilate the basis')
                    F.eq(mm(tr(K), K), tm.eye(dim), 'the basis is not orthonormal')
                return F.done()
            n = 4 if o else 3
            if not isinstance(v, Tu) or len(v.items) != n:
                return False, 'the result is not a %d-tuple' % n
            U, S, V = (known(x, t, None) for x in v.items[:3])
            if U.shape != (sh[0],) * 2 or S.shape != sh or V.shape != (sh[1],) * 2:
                return False, 'the factors have shapes %s, %s, %s' % (U.shape, S.shape, V.shape)
            F.eq(mm(U, S, V), M, 'the product of the factors is not the matrix')
            F.eq(mm(tr(U), U), tm.eye(sh[0]), 'the left factor is not orthogonal')
            F.eq(mm(V, tr(V)), tm.eye(sh[1]), 'the right factor is not orthogonal')
            off = [e for i, e in enumerate(tm.entries(S)) if i // sh[1] != i % sh[1]]
            if off:
                F.eq(tm.lit(off, (len(off),)), tm.zeros((len(off),)), 'the middle factor is not diagonal')
            if o:
                rk = v.items[3]
                F.true(None if not isinstance(rk, C) else rk.v == r, 'the rank is reported as %s instead of %d' % (show(rk), r))
            return F.done()
    return res(name(c), judge_total(I, rs, pred, where), where)
