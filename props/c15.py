"""C15 the Lyapunov solver solves the Lyapunov equation."""
from .formula import *

RULE = ('value numbering: with X the returned matrix the residual of the documented equation (continuous or discrete, ordinary or '
        'generalized) has the value number of zero; matrices of size 3 and more are described by their real Schur (QZ) form, one case '
        'for each arrangement of 1x1 and 2x2 blocks')
ANCHORS = ('lyapunov_eq_solver',)
MIN = {'quick': 80}
CASE_SECONDS = 120
WH = 'harold/_solvers.py:lyapunov_eq_solver'
BLOCKS = {3: ((1, 1, 1), (2, 1), (1, 2)), 4: ((1, 1, 1, 1), (2, 2), (1, 2, 1), (2, 1, 1), (1, 1, 2)), 5: ((2, 1, 2), (1, 2, 2), (2, 2, 1)),
          6: ((2, 2, 2), (1, 2, 1, 2), (2, 1, 1, 2), (1, 1, 2, 2))}


def cases(tier):
    out = []
    for form in ('c', 'continuous', 'd', 'discrete'):
        for gen in (False, True):
            for n in (1, 2):
                for dt in ('float', 'int', 'list'):
                    out.append((form, gen, n, None, dt))
            for n in (3, 4, 5, 6) if form in ('c', 'd') else (3,):
                for b in BLOCKS[n]:
                    out.append((form, gen, n, b, 'float'))
            out.append((form, gen, 3, BLOCKS[3][0], 'int'))
    out += [(f, g, n, None, 'shapes') for f in ('c', 'd') for g in (False, True) for n in (2, 3)]
    out += [(f, False, 2, None, 'badform') for f in ('x', '', 'continous')]
    return out


def name(c):
    form, gen, n, b, dt = c
    return 'lyapunov_eq_solver(%sform=%r, n=%d%s%s)' % ('E, ' if gen else '', form, n, ', blocks %s' % '+'.join(map(str, b)) if b else '',
                                                      '' if dt == 'float' else ', ' + dt)


def orth(name, n):
    """orthogonal matrix in Cayley form"""
    K = [[tm.ZERO] * n for i in range(n)]
    for i in range(n):
        for j in range(i):
            K[i][j] = tm.leaf('%s%d%d' % (name, i, j), ())
            K[j][i] = tm.neg(K[i][j])
    K = tm.lit([e for r in K for e in r], (n, n))
    return tm.solve(tm.arith('add', tm.eye(n), K), tm.arith('sub', tm.eye(n), K), (n, n))


def quasi(name, n, blocks, ones=False):
    """upper triangular up to the given diagonal blocks"""
    sub, k = set(), 0
    for b in blocks:
        if b == 2 and not ones:
            sub.add((k + 1, k))
        k += b
    return tm.lit([tm.leaf('%s%d%d' % (name, i, j), (), ('nonzero',)) if j >= i or (i, j) in sub else tm.ZERO
                   for i in range(n) for j in range(n)], (n, n))


def sym(n):
    return tm.lit([tm.leaf('y%d%d' % (min(i, j), max(i, j)), ()) for i in range(n) for j in range(n)], (n, n))


def mm(*ts):
    out = ts[0]
    for t in ts[1:]:
        out = tm.matmul(out, t)
    return out


def small(t):
    """a path on which an entry of the chosen form is taken for zero"""
    return any(ext.generic_truth(c) not in (None, pol) for c, pol in t.assume.items())


def run_case(I, s, c):
    form, gen, n, blocks, dt = c
    I.limit = 4000000
    tr = tm.transpose
    defs = {}
    at = tm.leaf('A', (n, n))
    et = tm.leaf('E', (n, n))
    yt = sym(n)
    kind = 'int' if dt == 'int' else 'float'
    if dt in ('shapes', 'badform'):
        sh = {'shapes': (n + 1, n + 1), 'badform': (n, n)}[dt]
        a, e, y = A_(s, 'A', (n, n)), A_(s, 'E', (n, n)), A_(s, 'Y', sh)
        rs = call(I, 'lyapunov_eq_solver', [a, y] + ([e] if gen else []), {'form': C(form)}, s)
        return res(name(c), judge(I, rs, None, must='raise', where=WH), WH)
    if blocks:
        if gen:
            q, z, aa, bb = orth('q', n), orth('z', n), quasi('a', n, blocks), quasi('e', n, blocks, True)
            zl, ql = tm.leaf('Z', (n, n)), tm.leaf('Q', (n, n))
            I.factors[('qz', at, et)] = (aa, bb, ql, zl)
            defs = {'Q': q, 'Z': z, 'A': mm(q, aa, tr(z)), 'E': mm(q, bb, tr(z))}
        else:
            z, aa = orth('z', n), quasi('a', n, blocks)
            zl = tm.leaf('Z', (n, n))
            I.factors[('schur', at)] = (aa, zl)
            defs = {'Z': z, 'A': mm(z, aa, tr(z))}
    if dt == 'list':
        wrap = lambda t: s.new_list([s.new_list([N('float', t_) for t_ in tm.entries(t)[i * n:(i + 1) * n]]) for i in range(n)])
        at = tm.lit([tm.leaf('A%d' % k, ()) for k in range(n * n)], (n, n))
        et = tm.lit([tm.leaf('E%d' % k, ()) for k in range(n * n)], (n, n))
    else:
        wrap = lambda t: s.new_arr(t, kind, (n, n))
    args = [wrap(at), wrap(yt)]
    if gen:
        args.append(wrap(et))
    I.eqbudget = 0
    rs = call(I, 'lyapunov_eq_solver', args, {'form': C(form)}, s)
    e = et if gen else tm.eye(n)

    def pred(v, t):
        x = term(v, t)
        if x is None or x.shape is None or not tm.conc(x.shape):
            return None, 'unknown value'
        if x.shape != (n, n):
            return False, 'the solution has shape %s' % (x.shape,)
        if isinstance(v, A) and dtype_of(v, t) == 'int':
            return False, 'the solution is truncated to integers'
        if blocks and small(t):
            return 'skip', 'negligible entry'
        if form.startswith('c'):
            r = tm.arith('add', mm(tr(e), x, at), mm(tr(at), x, e))
        else:
            r = tm.arith('sub', mm(tr(at), x, at), mm(tr(e), x, e))
        ok = agree(t, r, tm.neg(yt), defs)
        return (ok, 'the residual vanishes') if ok else (ok, 'the result does not solve the equation')
    return res(name(c), judge_values(I, rs, pred, WH), WH)


def dtype_of(v, s):
    r = ext.num(v, s)
    return r[2] if r is not None else None
