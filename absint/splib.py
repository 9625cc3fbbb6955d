"""scipy, numpy.linalg and matplotlib models"""
from fractions import Fraction
from math import isqrt
from . import terms as tm
from .terms import ShapeError
from .values import *
from . import ext
from .ext import (np_, one, num, seqitems, arrayify, NotNum, Unknown, dimval, todim, truthy, aterm, awrite, from_term, arg, cint, jk, flatshape)
from .npmodel import af, ret, leafarr, asarr, concat_parts


def dim_eq(a, b, msg, exc='ValueError'):
    if isinstance(a, int) and isinstance(b, int) and a != b:
        raise NotNum(exc, msg)


def mat(I, v, s, square=False, exc='ValueError', lift=False):
    t, sh, dt = af(I, v, s)
    if lift and sh is not None and len(sh) < 2 and tm.conc(sh):
        sh = (1,) * (2 - len(sh)) + tuple(sh)
        t = tm.reshape(t, sh)
    if sh is None:
        raise Unknown()
    if dt in ('object', 'str'):
        raise NotNum('ValueError', 'object arrays are not supported')
    if len(sh) != 2:
        raise NotNum(exc, 'expected a 2-D array, got shape %s' % (sh,))
    if square:
        dim_eq(sh[0], sh[1], 'expected square matrix, got shape %s' % (sh,), exc)
    return t, sh, dt


def flo(dt):
    return 'float' if dt in ('int', 'bool') else dt


def clobber(I, v, s, n):
    if isinstance(v, A):
        awrite(I, A(v.buf, v.shape, v.dtype, v.view), leafarr('clobber', v.shape), s, n)


def overwrites(I, pairs, s, n):
    for flag, v in pairs:
        if flag is not None and truthy(flag):
            clobber(I, v, s, n)


@np_('scipy.linalg.solve')
def la_solve_lift(I, args, kw, s, n):
    return la_solve(I, args, kw, s, n, True)


@np_('numpy.linalg.solve', 'numpy.linalg.umath.solve', 'scipy.linalg.solve_triangular', 'scipy.linalg.cho_solve',
     'scipy.linalg.lu_solve')
def la_solve(I, args, kw, s, n, lift=False):
    a = mat(I, args[0], s, True, 'ValueError', lift)
    b = af(I, args[1], s)
    if b[1] is None:
        raise Unknown()
    if not b[1]:
        raise NotNum('ValueError', 'incompatible dimensions')
    if b[1]:
        dim_eq(a[1][0], b[1][0] if len(b[1]) < 3 else b[1][-2], 'incompatible dimensions in solve')
    at = a[0]
    tr = kw.get('transposed', kw.get('trans'))
    if tr is not None and (truthy(tr) and not (isinstance(tr, C) and tr.v in (0, 'N'))):
        at = tm.transpose(at)
    if I.general and tm.conc(a[1]) and a[1][0]:
        r = tm.exact_int(tm.uf('rank', (at,), ()))
        if r is not None and r < a[1][0]:
            raise NotNum('LinAlgError', 'Matrix is singular.')
        regular = r is not None
    else:
        regular = False
    x = tm.solve(at, b[0], b[1])
    k = flo(jk(a[2], b[2]))
    out = ret(I, x, k, s, n, b[1])
    overwrites(I, [(kw.get('overwrite_a'), args[0]), (kw.get('overwrite_b'), args[1])], s, n)
    if regular or tm.conc(a[1]) and a[1][0] == 0:
        return out
    return out + I.mayraise('LinAlgError', 'Matrix is singular.', n, s) + I.mayraise('LinAlgWarning', 'ill-conditioned matrix', n, s)


@np_('scipy.linalg.inv', 'numpy.linalg.inv')
def la_inv(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True, 'ValueError')
    r = ret(I, tm.solve(t, tm.eye(sh[0]), sh), flo(dt), s, n, sh)
    overwrites(I, [(kw.get('overwrite_a'), args[0])], s, n)
    if tm.conc(sh) and sh[0] == 0:
        return r
    return r + I.mayraise('LinAlgError', 'singular matrix', n, s)


@np_('scipy.linalg.pinv', 'numpy.linalg.pinv')
def la_pinv(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s)
    return ret(I, tm.uf('pinv', (t,), (sh[1], sh[0])), flo(dt), s)


@np_('scipy.linalg.det', 'numpy.linalg.det')
def la_det(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True)
    return one(N(flo(dt), tm.uf('det', (t,), ()), True), s)


@np_('scipy.linalg.lstsq', 'numpy.linalg.lstsq')
def la_lstsq(I, args, kw, s, n):
    a = mat(I, args[0], s)
    b = af(I, args[1], s)
    if b[1] is None:
        raise Unknown()
    dim_eq(a[1][0], b[1][0] if b[1] else None, 'Shape mismatch in lstsq')
    sh = (a[1][1],) + tuple(b[1][1:])
    sq = a[1][0] == a[1][1]
    x = tm.solve(a[0], b[0], sh) if sq else tm.uf('lstsq', (a[0], b[0]), sh)
    overwrites(I, [(kw.get('overwrite_a'), args[0]), (kw.get('overwrite_b'), args[1])], s, n)
    v = from_term(x, flo(jk(a[2], b[2])), s, sh)
    return one(Tu([v, s.new_arr(leafarr('resid', (tm.dimvar('resid'),)), 'float'), N('int', tm.dimvar('rank', 0)),
                   s.new_arr(leafarr('sv', (tm.dimvar('sv'),)), 'float')]), s)


@np_('scipy.linalg.eigvals', 'numpy.linalg.eigvals')
def la_eigvals(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True)
    b = arg(args, kw, 1, 'b')
    overwrites(I, [(kw.get('overwrite_a'), args[0])], s, n)
    if b is not None and not (isinstance(b, C)):
        bt = mat(I, b, s, True)
        return ret(I, tm.uf('eigvals', (t, bt[0]), (sh[0],)), 'complex', s)
    if tm.conc(sh) and sh[0] == 0:
        return ret(I, tm.lit((), (0,)), 'complex', s)
    if tm.conc(sh) and sh[0] == 1:
        return ret(I, tm.reshape(t, (1,)), 'complex', s)
    if t.op == 'lit' and tm.conc(sh) and tri(t, sh):
        return ret(I, tm.lit([t.args[i * sh[0] + i] for i in range(sh[0])], (sh[0],)), 'complex', s)
    if t.op == 'lit' and tm.conc(sh):
        e = exacteigs([[t.args[i * sh[0] + j] for j in range(sh[0])] for i in range(sh[0])])
        if e is not None:
            return ret(I, tm.lit(e, (sh[0],)), 'complex', s)
    return ret(I, tm.uf('eigvals', (t,), (sh[0],)), 'complex', s)


def exacteigs(M):
    """eigenvalues of a block triangular matrix with 1x1 blocks and constant 2x2 blocks, when they are exactly representable"""
    k = len(M)
    for i in range(1, k):
        if all(tm.is_zero(M[r][c]) for r in range(i, k) for c in range(i)) or all(tm.is_zero(M[r][c]) for r in range(i) for c in range(i, k)):
            a, b = exacteigs([r[:i] for r in M[:i]]), exacteigs([r[i:] for r in M[i:]])
            return a + b if a is not None and b is not None else None
    if k == 1:
        return [M[0][0]]
    if k != 2:
        return None
    v = [tm.constval(x) for r in M for x in r]
    if any(not isinstance(x, (int, float)) or isinstance(x, bool) for x in v):
        return None
    a, b, c, d = [Fraction(x) for x in v]
    disc = (a - d) ** 2 / 4 + b * c
    q = abs(disc)
    r = Fraction(isqrt(q.numerator), isqrt(q.denominator))
    if r * r != q:
        return None
    m = (a + d) / 2
    if any(Fraction(float(x)) != x for x in (m, r, m + r, m - r)):
        return None
    if disc >= 0:
        return [tm.const(float(m + r)), tm.const(float(m - r))]
    return [tm.const(complex(float(m), float(r))), tm.const(complex(float(m), -float(r)))]


def tri(t, sh):
    k = sh[0]
    up = all(tm.is_zero(t.args[i * k + j]) for i in range(k) for j in range(i))
    lo = all(tm.is_zero(t.args[i * k + j]) for i in range(k) for j in range(i + 1, k))
    return up or lo


@np_('scipy.linalg.eigvalsh', 'numpy.linalg.eigvalsh')
def la_eigvalsh(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True)
    return ret(I, tm.uf('eigvalsh', (t,), (sh[0],)), 'float', s)


@np_('scipy.linalg.eig', 'numpy.linalg.eig')
def la_eig(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True)
    b = arg(args, kw, 1, 'b')
    ar = (t,)
    if b is not None and not isinstance(b, C):
        ar = (t, mat(I, b, s, True)[0])
    overwrites(I, [(kw.get('overwrite_a'), args[0]), (kw.get('overwrite_b'), b)], s, n)
    w = s.new_arr(tm.uf('eig_w', ar, (sh[0],)), 'complex')
    left = truthy(arg(args, kw, 2, 'left', FALSE))
    right = truthy(arg(args, kw, 3, 'right', TRUE))
    out = [w]
    if left:
        out.append(s.new_arr(tm.uf('eig_vl', ar, tuple(sh)), 'complex'))
    if right is not False:
        out.append(s.new_arr(tm.uf('eig_v', ar, tuple(sh)), 'complex'))
    return one(Tu(out) if len(out) > 1 else w, s)


@np_('scipy.linalg.eigh', 'numpy.linalg.eigh')
def la_eigh(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True)
    return one(Tu([s.new_arr(tm.uf('eigh_w', (t,), (sh[0],)), 'float'), s.new_arr(tm.uf('eigh_v', (t,), tuple(sh)), flo(dt))]), s)


def dmin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    from .builtins_model import minmax
    v = minmax('min', [dimval(a), dimval(b)], {}, None)
    return todim(v)


@np_('scipy.linalg.svd', 'numpy.linalg.svd')
def la_svd(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if sh is None or len(sh) < 2:
        if sh is None:
            raise Unknown()
        raise NotNum('ValueError', 'expected matrix')
    uv = truthy(arg(args, kw, 2, 'compute_uv', TRUE))
    full = truthy(arg(args, kw, 1, 'full_matrices', TRUE))
    r, c = sh[-2:]
    k = dmin(r, c)
    overwrites(I, [(kw.get('overwrite_a'), args[0])], s, n)
    sv = s.new_arr(tm.uf('svd_s', (t,), tuple(sh[:-2]) + (k,)), 'float')
    if uv is False:
        return one(sv, s)
    if full is not False:
        us, vs = (r, r), (c, c)
    else:
        us, vs = (r, k), (k, c)
    return one(Tu([s.new_arr(tm.uf('svd_u', (t,), tuple(sh[:-2]) + us), flo(dt)), sv, s.new_arr(tm.uf('svd_v', (t,), tuple(sh[:-2]) + vs), flo(dt))]), s)


@np_('scipy.linalg.svdvals')
def la_svdvals(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s)
    k = dmin(sh[0], sh[1])
    if tm.is_zero(t) and tm.conc(sh):
        return ret(I, tm.full(tm.ZERO, (k,)), 'float', s)
    return ret(I, tm.uf('svd_s', (t,), (k,)), 'float', s)


@np_('scipy.linalg.qr', 'numpy.linalg.qr', 'scipy.linalg.rq')
def la_qr(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s)
    mode = arg([], kw, 0, 'mode', C('full'))
    piv = truthy(kw.get('pivoting', FALSE))
    overwrites(I, [(kw.get('overwrite_a'), args[0])], s, n)
    r, c = sh
    k = dmin(r, c)
    q = (r, r)
    rr = (r, c)
    m = mode.v if isinstance(mode, C) else 'full'
    if m in ('economic', 'reduced'):
        q, rr = (r, k), (k, c)
    Q, RR = s.new_arr(tm.uf('qr_q', (t,), q), flo(dt)), s.new_arr(tm.uf('qr_r', (t,), rr), flo(dt))
    if piv and I.general and m != 'r' and tm.conc(sh) and 1 <= c <= 3:
        return pivoted(t, q, rr, dt, s)
    P = s.new_arr(tm.uf('qr_p', (t,), (c,)), 'int')
    if m == 'r':
        return one(Tu([RR, P]) if piv else Tu([RR]), s)
    return one(Tu([Q, RR, P]) if piv else Tu([Q, RR]), s)


def pivoted(t, q, rr, dt, s):
    """column pivoting: every order whose leading columns are independent may come out"""
    from itertools import permutations
    out = []
    r, c = t.shape
    es = tm.entries(t)
    rank = lambda x: tm.exact_int(tm.uf('rank', (x,), ()))
    rk = rank(t)
    for p in permutations(range(c)):
        tp = tm.lit([es[i * c + j] for i in range(r) for j in p], (r, c))
        if rk and rank(tm.lit([es[i * c + j] for i in range(r) for j in p[:rk]], (r, rk))) != rk:
            continue
        u = s.fork()
        out.append((Tu([u.new_arr(tm.uf('qr_q', (tp,), q), flo(dt)), u.new_arr(tm.uf('qr_r', (tp,), rr), flo(dt)),
                        u.new_arr(tm.lit([tm.const(j) for j in p], (c,)), 'int')]), u))
    return out


@np_('scipy.linalg.lu')
def la_lu(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s)
    r, c = sh
    k = dmin(r, c)
    pl = truthy(arg(args, kw, 1, 'permute_l', FALSE))
    overwrites(I, [(kw.get('overwrite_a'), args[0])], s, n)
    P, L, U = tm.uf('lu_p', (t,), (r, r)), tm.uf('lu_l', (t,), (r, k)), tm.uf('lu_u', (t,), (k, c))
    if I.general and tm.conc(sh) and 0 < r * c <= 150 and (c <= r or tm.exact_int(tm.uf('rank', (t,), ())) == r):
        # entries that vanish for data in general position
        z = [tm.same(e, tm.ZERO, None, tm.EXACT) for e in tm.entries(U)]
        U = tm.lit([tm.ZERO if v is True else e for e, v in zip(tm.entries(U), z)], (k, c))
    if pl:
        return one(Tu([s.new_arr(tm.matmul(P, L), flo(dt)), s.new_arr(U, flo(dt))]), s)
    return one(Tu([s.new_arr(P, 'float'), s.new_arr(L, flo(dt)), s.new_arr(U, flo(dt))]), s)


@np_('scipy.linalg.schur')
def la_schur(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True)
    o = arg(args, kw, 1, 'output', C('real'))
    cx = isinstance(o, C) and o.v in ('complex', 'c')
    overwrites(I, [(kw.get('overwrite_a'), args[0])], s, n)
    k = 'complex' if cx else flo(dt)
    f = None if cx else I.factors.get(('schur', t))
    if f:
        return one(Tu([s.new_arr(x, 'float') for x in f]), s)
    nm = 'cschur' if cx else 'schur'
    out = [s.new_arr(tm.uf(nm + '_t', (t,), tuple(sh)), k), s.new_arr(tm.uf(nm + '_z', (t,), tuple(sh)), k)]
    if 'sort' in kw and not (isinstance(kw['sort'], C) and kw['sort'].v is None):
        out.append(N('int', tm.dimvar('sdim', 0, sh[0] if isinstance(sh[0], int) else None)))
    return one(Tu(out), s)


@np_('scipy.linalg.qz', 'scipy.linalg.ordqz')
def la_qz(I, args, kw, s, n):
    a, b = mat(I, args[0], s, True), mat(I, args[1], s, True)
    overwrites(I, [(kw.get('overwrite_a'), args[0]), (kw.get('overwrite_b'), args[1])], s, n)
    o = arg(args, kw, 2, 'output', C('real'))
    k = 'complex' if isinstance(o, C) and o.v in ('complex', 'c') else flo(jk(a[2], b[2]))
    f = None if k == 'complex' else I.factors.get(('qz', a[0], b[0]))
    if f:
        return one(Tu([s.new_arr(x, 'float') for x in f]), s)
    if k == 'complex' and I.general and tm.conc(a[1]) and a[1][0] and tm.exact_int(tm.uf('rank', (a[0],), ())) == a[1][0]:
        # triangular factors whose diagonals have the generalized eigenvalues as ratios
        d = a[1][0]
        w = tm.uf('eigvals', (tm.solve(a[0], b[0], b[1]),), (d,))
        es = [[tm.ZERO] * d * d for _ in 'ab']
        for i in range(d):
            for j in range(i, d):
                es[0][i * d + j] = tm.leaf('qz_a%d%d' % (i, j), (), ('nonzero',))
                es[1][i * d + j] = tm.leaf('qz_b%d%d' % (i, j), ()) if i != j else tm.arith('mul', es[0][i * d + i], tm.entries(w)[i])
        out = [s.new_arr(tm.lit(e, (d, d)), k) for e in es] + [s.new_arr(tm.uf('qz_' + x, (a[0], b[0]), tuple(a[1])), k) for x in 'qz']
        return one(Tu(out), s)
    out = [s.new_arr(tm.uf('qz_' + x, (a[0], b[0]), tuple(a[1])), k) for x in ('aa', 'bb', 'q', 'z')]
    return one(Tu(out), s)


@np_('scipy.linalg.hessenberg')
def la_hess(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True)
    cq = truthy(arg(args, kw, 1, 'calc_q', FALSE))
    overwrites(I, [(kw.get('overwrite_a'), args[0])], s, n)
    h = s.new_arr(tm.uf('hess_h', (t,), tuple(sh)), flo(dt))
    if cq:
        return one(Tu([h, s.new_arr(tm.uf('hess_q', (t,), tuple(sh)), flo(dt))]), s)
    return one(h, s)


@np_('scipy.linalg.matrix_balance')
def la_balance(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True)
    sep = truthy(arg(args, kw, 3, 'separate', FALSE))
    f = tuple(truthy(arg(args, kw, i, k, TRUE)) is not False for i, k in ((1, 'permute'), (2, 'scale')))
    overwrites(I, [(kw.get('overwrite_a'), args[0])], s, n)
    b = s.new_arr(tm.uf('bal_a', (t,) + f, tuple(sh)), flo(dt))
    if sep:
        sc, pm = s.new_arr(tm.uf('bal_s', (t,) + f, (sh[0],)), 'float'), s.new_arr(tm.uf('bal_p', (t,) + f, (sh[0],)), 'int')
        return one(Tu([b, Tu([sc, pm])]), s)
    return one(Tu([b, s.new_arr(tm.uf('bal_t', (t,) + f, tuple(sh)), 'float')]), s)


def _matfun(name):
    def f(I, args, kw, s, n):
        t, sh, dt = mat(I, args[0], s, True)
        if tm.conc(sh) and sh[0] == 0:
            return ret(I, tm.lit((), sh), flo(dt), s)
        k = flo(dt)
        if name in ('logm', 'sqrtm'):
            k = 'complex' if dt == 'complex' else 'float'
        r = ret(I, tm.uf(name, (t,), tuple(sh)), k, s)
        return r
    return f


for _n in ('expm', 'logm', 'sqrtm', 'cosm', 'sinm', 'signm'):
    np_('scipy.linalg.' + _n)(_matfun(_n))


@np_('scipy.linalg.cholesky', 'numpy.linalg.cholesky')
def la_chol(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True)
    return ret(I, tm.uf('chol', (t,), tuple(sh)), flo(dt), s) + I.mayraise('LinAlgError', 'not positive definite', n, s)


@np_('numpy.linalg.matrix_power')
def la_matpow(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s, True, 'LinAlgError')
    k = args[1]
    kk = cint(k)
    if kk is not None and kk >= 0 and tm.conc(sh):
        return ret(I, tm.uf('matpow', (t, kk), tuple(sh)) if kk > 1 else (t if kk == 1 else tm.eye(sh[0])), dt, s)
    if kk is not None:
        return ret(I, tm.uf('matpow', (t, kk), tuple(sh)), flo(dt), s)
    return ret(I, tm.uf('matpow_s', (t, num(k, s)[0]), tuple(sh)), flo(dt), s)


@np_('numpy.linalg.matrix_rank')
def la_rank(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if sh is None:
        raise Unknown()
    if len(sh) < 2:
        return one(N('int', tm.dimvar('rank', 0, 1)), s)
    k = dmin(sh[0], sh[1])
    if k == 0:
        raise NotNum('ValueError', 'zero-size array to reduction operation maximum which has no identity')
    if tm.is_zero(t):
        return one(C(0), s)
    r = tm.uf('rank', (t,), ())
    if I.general and tm.conc(sh) and tm.exact_int(r) is not None:
        return one(C(tm.exact_int(r)), s)
    tm.BOUNDS.setdefault(r, (0, k if isinstance(k, int) else None))
    return one(N('int', r, True), s)


@np_('numpy.linalg.norm', 'scipy.linalg.norm')
def la_norm(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    ax = arg(args, kw, 2, 'axis')
    if dt in ('object', 'str'):
        raise NotNum('TypeError', 'bad array for norm')
    o = arg(args, kw, 1, 'ord')
    extra = () if o is None or (isinstance(o, C) and o.v is None) else (repr(o),)
    if ax is not None and not (isinstance(ax, C) and ax.v is None):
        a = cint(ax)
        if a is None:
            raise Unknown()
        a %= len(sh)
        return ret(I, leafarr('norm', sh[:a] + sh[a + 1:], t, a), 'float', s)
    if tm.is_zero(t):
        return one(N('float', tm.ZERO, True), s)
    ov = o.v if isinstance(o, C) else None if o is None else '?'
    if tm.conc(sh) and tm.nelem(sh) <= 16 and len(sh) <= 2:
        if ov is None or ov == 'fro' or ov == 2 and (len(sh) == 1 or min(sh) == 1):
            q = tm.ZERO
            for e in tm.entries(t):
                e = e if dt != 'complex' else tm.uf('abs', (e,), ())
                q = tm.arith('add', q, tm.arith('mul', e, e))
            return one(N('float', tm.uf('sqrt', (q,), ()), True), s)
        if ov == 2:
            return one(N('float', tm.entries(tm.uf('svd_s', (t,), (min(sh),)))[0], True), s)
    return one(N('float', tm.uf('abs', (tm.uf('norm', (t,) + extra, ()),), ()), True), s)


@np_('numpy.linalg.cond')
def la_cond(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    return one(N('float', tm.uf('abs', (tm.uf('cond_no', (t,), ()),), ()), True), s)


@np_('scipy.linalg.block_diag')
def la_block_diag(I, args, kw, s, n):
    ps = []
    for v in args:
        t, sh, dt = af(I, v, s)
        if sh is None:
            raise Unknown()
        if dt == 'object':
            raise Unknown()
        if len(sh) < 2:
            sh2 = (1,) * (2 - len(sh)) + tuple(sh)
            t, sh = tm.reshape(t, sh2), sh2
        if len(sh) > 2:
            raise NotNum('ValueError', 'arguments in the following positions have dimension greater than 2')
        ps.append((t, sh, dt))
    if not ps:
        return ret(I, tm.lit((), (1, 0)), 'float', s)
    rows = []
    tot = tm.ZERO
    for p in ps:
        tot = tm.iadd(tot, tm.dim_term(p[1][1]))
    if all(tm.conc(p[1]) for p in ps):
        R_, C_ = sum(p[1][0] for p in ps), sum(p[1][1] for p in ps)
        k = ps[0][2]
        for p in ps[1:]:
            k = jk(k, p[2])
        out = tm.zeros((R_, C_))
        r = c = 0
        for t, sh, _ in ps:
            if tm.nelem(sh):
                out = tm.setitem(out, (('s', r, r + sh[0], None), ('s', c, c + sh[1], None)), t)
            r += sh[0]
            c += sh[1]
        return ret(I, out, k, s, n, (R_, C_))
    left = tm.ZERO
    for t, sh, dt in ps:
        right = tm.iadd(tm.iadd(tot, left, -1), tm.dim_term(sh[1]), -1)
        parts = [(tm.zeros((sh[0], tm.dim_of(left))), (sh[0], tm.dim_of(left)), dt), (t, sh, dt),
                 (tm.zeros((sh[0], tm.dim_of(right))), (sh[0], tm.dim_of(right)), dt)]
        parts = [p for p in parts if p[1][1] != 0] or [parts[1]]
        r = concat_parts(I, parts, 1, s)[0][0]
        rows.append((aterm(r, s), r.shape, r.dtype))
        left = tm.iadd(left, tm.dim_term(sh[1]))
    return concat_parts(I, rows, 0, s)


def _are(name):
    def f(I, args, kw, s, n):
        a = mat(I, args[0], s, True, lift=True)
        b = mat(I, args[1], s, lift=True)
        q = mat(I, args[2], s, True, lift=True)
        r = mat(I, args[3], s, True, lift=True)
        dim_eq(a[1][0], b[1][0], 'Matrix a and b should have the same number of rows.')
        dim_eq(a[1][0], q[1][0], 'Matrix a and q should have the same shape.')
        dim_eq(b[1][1], r[1][0], 'Matrix b and r should have the same number of columns.')
        more = []
        for i, nm in ((4, 'e'), (5, 's')):
            v = arg(args, kw, i, nm)
            if v is not None and not (isinstance(v, C) and v.v is None):
                m = mat(I, v, s, lift=True)
                sh = a[1] if nm == 'e' else b[1]
                for x, y in zip(m[1], sh):
                    dim_eq(x, y, 'Matrix %s should have the shape of %s.' % (nm, 'a' if nm == 'e' else 'b'))
                more.append(m[0])
            elif not tm.conc(a[1]) or not tm.conc(b[1]):
                raise Unknown()
            else:
                more.append(tm.eye(a[1][0]) if nm == 'e' else tm.zeros(tuple(b[1])))
        return ret(I, tm.uf(name, (a[0], b[0], q[0], r[0]) + tuple(more), tuple(a[1])), flo(jk(a[2], b[2])), s) + \
            I.mayraise('LinAlgError', 'Failed to find a finite solution.', n, s)
    return f


np_('scipy.linalg.solve_continuous_are')(_are('care'))
np_('scipy.linalg.solve_discrete_are')(_are('dare'))


def _lyap(name):
    def f(I, args, kw, s, n):
        a, q = mat(I, args[0], s, True), mat(I, args[-1] if 'q' not in kw else kw['q'], s)
        return ret(I, tm.uf(name, (a[0], q[0]), tuple(q[1])), flo(jk(a[2], q[2])), s)
    return f


np_('scipy.linalg.solve_lyapunov', 'scipy.linalg.solve_continuous_lyapunov')(_lyap('clyap'))
np_('scipy.linalg.solve_discrete_lyapunov')(_lyap('dlyap'))


@np_('scipy.linalg.solve_sylvester')
def la_sylv(I, args, kw, s, n):
    a, b, q = mat(I, args[0], s, True), mat(I, args[1], s, True), mat(I, args[2], s)
    return ret(I, tm.uf('sylv', (a[0], b[0], q[0]), tuple(q[1])), 'float', s)


@np_('scipy.linalg.companion')
def la_companion(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if not tm.conc(sh) or len(sh) != 1:
        raise Unknown()
    if sh[0] < 2:
        raise NotNum('ValueError', 'The length of `a` must be at least 2.')
    es = tm.entries(t)
    k = sh[0] - 1
    ent = [tm.neg(tm.arith('div', e, es[0])) for e in es[1:]]
    for i in range(1, k):
        ent += [tm.ONE if j == i - 1 else tm.ZERO for j in range(k)]
    return ret(I, tm.lit(ent, (k, k)), flo(dt), s)


@np_('scipy.linalg.toeplitz', 'scipy.linalg.hankel')
def la_toep(I, args, kw, s, n):
    raise Unknown()


@np_('scipy.linalg.null_space', 'scipy.linalg.orth')
def la_null(I, args, kw, s, n):
    t, sh, dt = mat(I, args[0], s)
    return ret(I, leafarr('null', (sh[1], tm.dimvar('null', 0, sh[1] if isinstance(sh[1], int) else None)), t), flo(dt), s)


@np_('scipy.linalg._asarray_validated')
def la_asarray_validated(I, args, kw, s, n):
    return one(asarr(I, args[0], s), s)


@np_('numpy.linalg._makearray')
def la_makearray(I, args, kw, s, n):
    return one(Tu([asarr(I, args[0], s), X('absint.identity')]), s)


@np_('scipy.signal.deconvolve')
def sg_deconvolve(I, args, kw, s, n):
    a, b = af(I, args[0], s), af(I, args[1], s)
    ps = []
    for t, sh, dt in (a, b):
        if sh is None:
            raise Unknown()
        if sh == ():
            t, sh = tm.reshape(t, (1,)), (1,)
        if len(sh) > 1:
            raise NotNum('ValueError', 'signal must be 1-D.')
        ps.append((t, sh, dt))
    (ta, sa, ka), (tb, sb, kb) = ps
    if not (tm.conc(sa) and tm.conc(sb)):
        q = s.new_arr(leafarr('deconv_q', (tm.dimvar('q'),), ta, tb), 'float')
        return one(Tu([q, s.new_arr(leafarr('deconv_r', sa, ta, tb), 'float')]), s)
    if sa[0] < sb[0]:
        return one(Tu([s.new_list([]), s.new_arr(ta, ka)]), s)
    nq = sa[0] - sb[0] + 1
    es, ds = list(tm.entries(ta)), list(tm.entries(tb))
    k = flo(jk(ka, kb))
    if sa[0] <= 8:
        q = []
        r = list(es)
        for i in range(nq):
            c = tm.arith('div', r[i], ds[0])
            q.append(c)
            r[i] = tm.ZERO
            for j in range(1, len(ds)):
                r[i + j] = tm.arith('sub', r[i + j], tm.arith('mul', c, ds[j]))
        return one(Tu([s.new_arr(tm.lit(q, (nq,)), k), s.new_arr(tm.lit(r, sa), k)]), s)
    rr = tm.uf('deconv_r', (ta, tb), sa)
    rr = tm.lit([tm.ZERO] * nq + list(tm.entries(rr))[nq:], sa)
    return one(Tu([s.new_arr(tm.uf('deconv_q', (ta, tb), (nq,)), k), s.new_arr(rr, k)]), s)


# ------------------------------------------------------------- matplotlib
@np_('matplotlib.pyplot.subplots')
def plt_subplots(I, args, kw, s, n):
    r = arg(args, kw, 0, 'nrows', C(1))
    c = arg(args, kw, 1, 'ncols', C(1))
    sq = truthy(kw.get('squeeze', TRUE))
    k = new_id()
    s.event('subplots', r, c, I.where(n))
    fig = XO('fig', tm.leaf('fig%d' % k))
    dr, dc = todim(r), todim(c)
    if not (isinstance(dr, int) and isinstance(dc, int)):
        return one(Tu([fig, s.new_arr(leafarr('axes', (dr, dc)), 'axes', (dr, dc))]), s)
    if dr < 1 or dc < 1:
        raise NotNum('ValueError', 'Number of rows must be a positive integer')
    es = [tm.leaf('ax%d_%d_%d' % (k, i, j)) for i in range(dr) for j in range(dc)]
    if sq is not False:
        if dr * dc == 1:
            return one(Tu([fig, XO('axes', es[0])]), s)
        sh = (dr, dc) if dr > 1 and dc > 1 else (dr * dc,)
    else:
        sh = (dr, dc)
    return one(Tu([fig, s.new_arr(tm.lit(es, sh), 'axes')]), s)


@np_('matplotlib.pyplot.figure')
def plt_figure(I, args, kw, s, n):
    return one(XO('fig', tm.leaf('fig%d' % new_id())), s)


@np_('matplotlib.cycler', 'cycler.cycler', 'matplotlib.rcsetup.cycler')
def mpl_cycler(I, args, kw, s, n):
    return one(XO('cycler'), s)
