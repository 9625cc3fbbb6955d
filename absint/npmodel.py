"""numpy models"""
import math

from . import terms as tm
from .terms import ShapeError
from .values import *
from . import ext
from .ext import (np_, meth, one, num, seqitems, arrayify, NotNum, Unknown, dimval, todim, toshape, cbool, cmp_scalar, truthy, eltwise1,
                  aterm, awrite, as_cond, kind_of, from_term, arg, cint, dtype_of, jk, any_cond, all_cond, centry, tcond, cnot,
                  flatshape, entry_conds, ORDER)


def af(I, v, s, dtype=None):
    if v is None:
        raise NotNum('TypeError', 'missing argument')
    return arrayify(I, v, s, dtype)


def out_kw(I, v, kw, s, n):
    """out= keyword: result is written to the given array"""
    o = kw.get('out')
    if isinstance(o, Tu) and o.items:
        o = o.items[0]
    if isinstance(o, A):
        r = num(v, s)
        if r is not None:
            awrite(I, o, r[0], s, n, r[2])
        return o
    return v


def ret(I, t, dt, s, n=None, shape='term', kw=None):
    v = from_term(t, dt, s, shape)
    if kw and 'out' in kw:
        v = out_kw(I, v, kw, s, n)
    return [(v, s)]


def leafarr(name, shape, *deps):
    return tm.uf(name, tuple(deps), tuple(shape)) if deps else tm.mk('leaf', ('%s#%d' % (name, new_id()), ()), tuple(shape))


# ---------------------------------------------------------------- creation
def _filled(c, dt0):
    def f(I, args, kw, s, n):
        sh = toshape(arg(args, kw, 0, 'shape'), s)
        dt = dtype_of(arg(args, kw, 1, 'dtype')) or dt0
        for d in sh:
            if isinstance(d, int) and d < 0:
                raise NotNum('ValueError', 'negative dimensions are not allowed')
        if c is None:
            return one(s.new_arr(leafarr('empty', sh), dt, sh), s) if not (
                tm.conc(sh) and tm.nelem(sh) == 0) else ret(I, tm.lit((), sh), dt, s)
        t = tm.full(c, sh)
        if sh == ():
            return one(s.new_arr(t, dt, ()), s)
        return ret(I, t, dt, s)
    return f


np_('numpy.zeros')(_filled(0, 'float'))
np_('numpy.ones')(_filled(1, 'float'))
np_('numpy.empty')(_filled(None, 'float'))


@np_('numpy.full')
def np_full(I, args, kw, s, n):
    sh = toshape(arg(args, kw, 0, 'shape'), s)
    t, vs, dt = af(I, arg(args, kw, 1, 'fill_value'), s)
    dt = dtype_of(arg(args, kw, 2, 'dtype')) or dt
    if vs != ():
        return ret(I, tm.uf('bcast', (t,), sh), dt, s)
    return ret(I, tm.full(t, sh), dt, s)


def _like(c):
    def f(I, args, kw, s, n):
        t, sh, dt = af(I, args[0], s)
        k = 2 if c == 'full' else 1
        dt = dtype_of(arg(args, kw, k, 'dtype')) or dt
        if sh is None:
            raise Unknown()
        if 'shape' in kw:
            sh = toshape(kw['shape'], s)
        if c is None:
            return ret(I, leafarr('empty', sh), dt, s) if not (tm.conc(sh) and tm.nelem(sh) == 0) else ret(I, tm.lit((), sh), dt, s)
        if c == 'full':
            fv, _, fd = af(I, arg(args, kw, 1, 'fill_value'), s)
            if dt in ('int', 'bool') and fd in ('float', 'complex'):
                fv = ext.trunc(fv)
            return ret(I, tm.full(fv, sh), dt, s)
        return ret(I, tm.full(c, sh), dt, s)
    return f


np_('numpy.zeros_like')(_like(0))
np_('numpy.ones_like')(_like(1))
np_('numpy.empty_like')(_like(None))
np_('numpy.full_like')(_like('full'))


@np_('numpy.eye')
def np_eye(I, args, kw, s, n):
    a = todim(arg(args, kw, 0, 'N'))
    m = arg(args, kw, 1, 'M')
    b = a if m is None or (isinstance(m, C) and m.v is None) else todim(m)
    k = arg(args, kw, 2, 'k', C(0))
    dt = dtype_of(arg(args, kw, 3, 'dtype')) or 'float'
    kk = cint(k)
    if kk is None:
        return ret(I, leafarr('eye', (a, b)), dt, s)
    return ret(I, tm.eye(a, b, kk), dt, s)


@np_('numpy.identity')
def np_identity(I, args, kw, s, n):
    return ret(I, tm.eye(todim(args[0])), 'float', s)


@np_('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.asarray_chkfinite',
     'numpy.copy')
def np_array(I, args, kw, s, n, copy=None):
    v = arg(args, kw, 0, 'object', kw.get('a'))
    dt = dtype_of(arg(args, kw, 1, 'dtype'))
    if copy is None:
        copy = False
    t, sh, k = af(I, v, s, dt if dt in ('float', 'complex', 'int') else None)
    if dt in ('float', 'complex', 'int') and k == 'object':
        raise NotNum('TypeError', "float() argument must be a string or a real number, not 'object'")
    if k == 'complex' and dt in ('float', 'int'):
        if not isinstance(v, A):
            raise NotNum('TypeError', "float() argument must be a string or a real number, not 'complex'")
        t = eltwise1('real', t)
    k2 = dt or k
    if dt in ('int',) and k in ('float', 'num'):
        t = ext.trunc(t)
    nd = arg([], kw, 0, 'ndmin')
    if isinstance(v, A) and not copy and (dt is None or dt == k):
        r = v
    elif sh == ():
        r = s.new_arr(t, k2, ())
    else:
        r = s.new_arr(t, k2, sh)
    if nd is not None and cint(nd) and r.shape is not None and len(r.shape) < cint(nd):
        nsh = (1,) * (cint(nd) - len(r.shape)) + tuple(r.shape)
        r = A(r.buf, nsh, r.dtype, r.view + (('reshape', nsh),))
    return one(r, s)


@np_('numpy.array', 'numpy.copy')
def np_array_copy(I, args, kw, s, n):
    c = truthy(kw.get('copy', TRUE))
    return np_array(I, args, kw, s, n, copy=c is not False)


def _view_reshape(v, sh):
    return A(v.buf, tuple(sh), v.dtype, v.view + (('reshape', tuple(sh)),))


def asarr(I, v, s):
    """array value (not a copy when it already is one)"""
    if isinstance(v, A):
        return v
    t, sh, k = af(I, v, s)
    return s.new_arr(t, k, sh)


def _atleast(nd):
    def f(I, args, kw, s, n):
        out = []
        for v in args:
            a = asarr(I, v, s)
            if a.shape is None:
                raise Unknown()
            if len(a.shape) < nd:
                sh = (1,) * (nd - len(a.shape)) + tuple(a.shape)
                a = _view_reshape(a, sh)
            out.append(a)
        return one(out[0] if len(out) == 1 else s.new_list(out), s)
    return f


np_('numpy.atleast_1d')(_atleast(1))
np_('numpy.atleast_2d')(_atleast(2))


@np_('numpy.arange')
def np_arange(I, args, kw, s, n):
    a = list(args)
    if 'stop' in kw:
        a = [kw.get('start', C(0))] + [kw['stop']] + ([kw['step']] if 'step' in kw else [])
    elif 'step' in kw:
        a = ([C(0)] if len(a) == 1 else []) + a + [kw['step']]
    dt = dtype_of(kw.get('dtype'))
    if all(isinstance(x, C) for x in a):
        vals = [x.v for x in a]
        if all(isinstance(v, int) for v in vals):
            r = list(range(*vals))
            if len(r) <= 400:
                return ret(I, tm.lit([tm.const(x) for x in r], (len(r),)), dt or 'int', s)
            return ret(I, leafarr('arange', (len(r),)), dt or 'int', s)
        st, sp, stp = (0, vals[0], 1) if len(vals) == 1 else (vals[0], vals[1], vals[2] if len(vals) > 2 else 1)
        ln = max(0, math.ceil((sp - st) / stp))
        if ln <= 400:
            return ret(I, tm.lit([tm.const(st + i * stp) for i in range(ln)], (ln,)), dt or 'float', s)
        return ret(I, leafarr('arange', (ln,)), dt or 'float', s)
    ks = [kind_of(x) for x in a]
    if all(k in ('int', 'bool') for k in ks):
        if len(a) <= 2:
            lo = tm.ZERO if len(a) == 1 else num(a[0], s)[0]
            hi = num(a[-1], s)[0]
            ln = tm.iadd(hi, lo, -1)
            l, h = tm.ibounds(ln)
            d = tm.dim_of(ln) if l is not None and l >= 0 else tm.dimvar('arange', 0, h)
            return ret(I, tm.uf('arange', (lo, hi), (d,)), dt or 'int', s)
        return ret(I, leafarr('arange', (tm.dimvar('arange'),)), dt or 'int', s)
    if any(k is None for k in ks):
        raise Unknown()
    rs = tuple(num(x, s)[0] for x in a)
    key = tm.uf('arange_len', rs, ())
    tm.BOUNDS.setdefault(key, (0, None))
    return ret(I, tm.uf('arange', rs, (key,)), dt or 'float', s)


def _space(name):
    def f(I, args, kw, s, n):
        k = arg(args, kw, 2, 'num', C(50))
        d = todim(k)
        a, b = af(I, args[0], s), af(I, args[1], s)
        extra = [C(truthy(kw['endpoint']))] if 'endpoint' in kw else []
        nd = jk(a[2], b[2])
        t = tm.uf(name, (a[0], b[0]) + tuple(repr(x) for x in extra), (d,) + tuple(tm.bshape(a[1], b[1])))
        if name == 'linspace' and isinstance(d, int) and d <= 12 and not extra and a[1] == () == b[1]:
            if d == 1:
                t = tm.lit([a[0]], (1,))
            elif d:
                st = tm.arith('div', tm.arith('sub', b[0], a[0]), tm.const(d - 1))
                t = tm.lit([tm.arith('add', a[0], tm.arith('mul', tm.const(i), st)) for i in range(d)], (d,))
        v = from_term(t, 'complex' if nd == 'complex' else 'float', s)
        if truthy(kw.get('retstep', FALSE)):
            return one(Tu([v, N('float', tm.fresh('step'), True)]), s)
        return one(v, s)
    return f


np_('numpy.linspace')(_space('linspace'))
np_('numpy.logspace')(_space('logspace'))
np_('numpy.geomspace')(_space('geomspace'))


# -------------------------------------------------------------- elementwise
REALOUT = {'abs', 'angle', 'isnan', 'sign'}


def _elt(name, kind=None):
    def f(I, args, kw, s, n):
        v = arg(args, kw, 0, 'x', kw.get('z', kw.get('val')))
        t, sh, dt = af(I, v, s)
        if dt == 'object':
            raise Unknown()
        if dt == 'str':
            raise NotNum('TypeError', "ufunc %r not supported for the input types" % name)
        k = kind(dt) if kind else dt
        if dt in ('float', 'int', 'bool'):
            if name in ('real', 'conj'):
                if name == 'real' and isinstance(v, A):
                    return one(v, s)
                return ret(I, t, dt, s, n, sh, kw)
            if name == 'imag':
                return ret(I, tm.zeros(sh) if sh is not None else t, dt, s, n, sh, kw)
        if name in ('real', 'imag') and isinstance(v, A):
            return one(A(v.buf, v.shape, k, v.view + ((name,),)), s)
        if 'where' in kw:
            return ret(I, leafarr(name, sh, t), k, s, n, sh, kw)
        return ret(I, eltwise1(name, t), k, s, n, sh, kw)
    return f


def _fl(dt):
    return 'float' if dt in ('int', 'bool', 'float') else dt


def _re(dt):
    return 'float' if dt == 'complex' else dt


def _bo(dt):
    return 'bool'


for _n, _k in {'abs': _re, 'absolute': _re, 'fabs': _re, 'angle': lambda d: 'float', 'sqrt': _fl, 'exp': _fl, 'log': _fl, 'log10': _fl, 'log2': _fl,
               'sin': _fl, 'cos': _fl, 'tan': _fl, 'arctan': _fl, 'arcsin': _fl, 'arccos': _fl, 'sinh': _fl, 'cosh': _fl, 'tanh': _fl, 'ceil': None,
               'floor': None, 'rint': None, 'round': None, 'around': None, 'real': _re, 'imag': _re, 'conj': None, 'conjugate': None, 'sign': None,
               'rad2deg': _fl, 'degrees': _fl, 'deg2rad': _fl, 'radians': _fl, 'spacing': _fl, 'square': None, 'expm1': _fl, 'log1p': _fl,
               'nan_to_num': None, 'fix': None, 'trunc': None, 'unwrap': _fl}.items():
    np_('numpy.' + _n)(_elt({'absolute': 'abs', 'fabs': 'abs', 'conjugate': 'conj', 'around': 'round', 'degrees': 'rad2deg',
                             'radians': 'deg2rad'}.get(_n, _n), _k))


@np_('numpy.square')
def np_square(I, args, kw, s, n):
    return I.binop('mul', args[0], args[0], s, n) if isinstance(args[0], A) else I.binop('pow', args[0], C(2), s, n)


@np_('numpy.unwrap')
def np_unwrap(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if len(args) == 1 and (not kw or set(kw) == {'axis'} and isinstance(kw['axis'], C) and kw['axis'].v in (-1, len(sh or ()) - 1)) \
            and sh is not None and tm.conc(sh) and sh and tm.nelem(sh) <= 200:
        es, k = tm.entries(t), sh[-1]
        out = []
        for i in range(0, len(es), k or 1):
            row = tm.lit(es[i:i + k], (k,))
            out += [es[i]] + [tm.uf('unwrap', (row, tm.const(j)), ()) for j in range(1, k)]
        return ret(I, tm.lit(out, sh), 'float', s)
    return ret(I, leafarr('unwrap', sh, t), 'float', s)


def _fincond(name, t):
    """isnan / isinf / isfinite of a scalar term"""
    v = tm.constval(t)
    if v is not None:
        try:
            import cmath
            return getattr(cmath, name)(v)
        except Exception:
            pass
    if t.op == 'leaf':
        if t.args[0] == 'nan':
            return name == 'isnan'
        return name == 'isfinite'
    return tm.uf('cond', (name, t), ())


def _isfin(name):
    def f(I, args, kw, s, n):
        t, sh, dt = af(I, args[0], s)
        if dt in ('object', 'str'):
            raise NotNum('TypeError', "ufunc %r not supported for the input types" % name)
        if sh == ():
            c = _fincond(name, t)
            return one(cbool(c), s)
        if I.general and t.shape is not None and tm.conc(t.shape) and 0 < tm.nelem(t.shape) <= 64:
            # formulas of data in general position are finite
            es = [e if e.op in ('const', 'leaf') or any(x.op in ('const', 'leaf') and x.args[0] != x.args[0] or x.op == 'leaf' and
                                                        str(x.args[0]).startswith('nan') for x in tm.walk(e)) else tm.ONE for e in tm.entries(t)]
            return ret(I, tm.lit([centry(_fincond(name, e)) for e in es], t.shape), 'bool', s, n)
        if t.op == 'lit':
            return ret(I, tm.lit([centry(_fincond(name, e)) for e in t.args], t.shape), 'bool', s, n)
        if t.op == 'leaf' and '#' not in str(t.args[0]):
            return ret(I, tm.full(1 if name == 'isfinite' else 0, sh), 'bool', s, n, sh)
        return ret(I, tm.uf('a' + name, (t,), sh), 'bool', s, n, sh)
    return f


for _n in ('isnan', 'isinf', 'isfinite'):
    np_('numpy.' + _n)(_isfin(_n))


@np_('numpy.reciprocal')
def np_reciprocal(I, args, kw, s, n):
    v = args[0]
    if kind_of(v) in ('int', 'bool'):
        t, sh, dt = af(I, v, s)
        return ret(I, tm.uf('irecip', (t,), sh), dt, s, n, sh, kw)
    out = []
    for r, t in I.binop('div', C(1.), asarr(I, v, s) if not isinstance(v, (C, N)) else v, s, n):
        out.append((r if isinstance(r, Raise) else out_kw(I, r, kw, t, n), t))
    return out


def _bin(op):
    def f(I, args, kw, s, n):
        l, r = args[0], args[1]
        if I.inst(l, s) is not None or I.inst(r, s) is not None:
            return I.binop(op, l, r, s, n)
        l = asarr(I, l, s) if not isinstance(l, (C, N)) else l
        r = asarr(I, r, s) if not isinstance(r, (C, N)) else r
        if op == 'div' and not (isinstance(l, A) or isinstance(r, A)) and isinstance(l, (C, N)):
            # numpy scalars do not raise ZeroDivisionError
            t = num(l, s)
            l = N(t[2], t[0], True)
        out = []
        for v, t in I.binop(op, l, r, s, n):
            out.append((v if isinstance(v, Raise) else out_kw(I, v, kw, t, n), t))
        return out
    return f


for _n, _o in {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'true_divide': 'div', 'power': 'pow', 'matmul': 'matmul',
               'floor_divide': 'floordiv', 'mod': 'mod', 'remainder': 'mod', 'float_power': 'pow', 'bitwise_and': 'and', 'bitwise_or': 'or',
               'bitwise_xor': 'xor'}.items():
    np_('numpy.' + _n)(_bin(_o))


@np_('numpy.negative')
def np_negative(I, args, kw, s, n):
    v = args[0]
    out = []
    for r, t in I.unary('neg', asarr(I, v, s) if not isinstance(v, (C, N)) else v, s, n):
        out.append((r if isinstance(r, Raise) else out_kw(I, r, kw, t, n), t))
    return out


def _cmp(op):
    def f(I, args, kw, s, n):
        l = asarr(I, args[0], s) if not isinstance(args[0], (C, N)) else args[0]
        r = asarr(I, args[1], s) if not isinstance(args[1], (C, N)) else args[1]
        return I.compare(op, l, r, s, n)
    return f


for _n, _o in {'equal': 'eq', 'not_equal': 'ne', 'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge'}.items():
    np_('numpy.' + _n)(_cmp(_o))


def _bterm(I, v, s):
    t, sh, dt = af(I, v, s)
    if dt != 'bool':
        t = ext.acmp('ne', t, tm.ZERO, sh)
    return t, sh


@np_('numpy.logical_not')
def np_lnot(I, args, kw, s, n):
    t, sh = _bterm(I, args[0], s)
    if sh == ():
        return one(cbool(cnot(tcond(t))), s)
    return ret(I, ext.bnot(t), 'bool', s, n, sh, kw)


def _logic(op):
    def f(I, args, kw, s, n):
        (ta, sa), (tb, sb) = _bterm(I, args[0], s), _bterm(I, args[1], s)
        sh = tm.bshape(sa, sb)
        g = {'and': ext.conj, 'or': ext.disj}.get(op, lambda cs: (cs[0] != cs[1]) if all(isinstance(c, bool) for c in cs) else
                                                      cnot(cs[0]) if cs[1] is True else cs[0] if cs[1] is False else
                                                      cnot(cs[1]) if cs[0] is True else cs[1] if cs[0] is False else
                                                      tm.uf('cond', ('xor',) + tuple(centry(c) for c in cs), ()))
        if sh == ():
            return one(cbool(g([tcond(ta), tcond(tb)])), s)
        if tm.conc(sh) and tm.entrywise(ta) and tm.entrywise(tb) and tm.nelem(sh) <= 200:
            return ret(I, tm.lit([centry(g([tcond(x), tcond(y)])) for x, y in zip(tm.bentries(ta, sh), tm.bentries(tb, sh))], sh),
                       'bool', s, n, kw=kw)
        return ret(I, tm.uf('l' + op, (ta, tb), sh), 'bool', s, n, sh, kw)
    return f


for _n in ('and', 'or', 'xor'):
    np_('numpy.logical_' + _n)(_logic(_n))


def _mm2(which):
    def f(I, args, kw, s, n):
        a, b = af(I, args[0], s), af(I, args[1], s)
        sh = tm.bshape(a[1], b[1])
        k = jk(a[2], b[2])

        def g(x, y):
            from .builtins_model import minmax
            v = minmax(which, [N(a[2] if a[2] in ORDER else 'num', x), N(b[2] if b[2] in ORDER else 'num', y)], {}, s)
            return num(v, s)[0]
        if sh == ():
            return one(N(k, g(a[0], b[0]), True), s)
        if tm.conc(sh) and tm.entrywise(a[0]) and tm.entrywise(b[0]) and tm.nelem(sh) <= 200:
            return ret(I, tm.lit([g(x, y) for x, y in zip(tm.bentries(a[0], sh), tm.bentries(b[0], sh))], sh), k, s, n, kw=kw)
        return ret(I, tm.uf(which + '2', (a[0], b[0]), sh), k, s, n, sh, kw)
    return f


np_('numpy.maximum', 'numpy.fmax')(_mm2('max'))
np_('numpy.minimum', 'numpy.fmin')(_mm2('min'))


@np_('numpy.clip')
def np_clip(I, args, kw, s, n):
    t, sh, k = af(I, args[0], s)
    return ret(I, leafarr('clip', sh, t), k, s, n, sh, kw)


@np_('numpy.hypot', 'numpy.arctan2', 'numpy.copysign')
def np_hypot(I, args, kw, s, n):
    a, b = af(I, args[0], s), af(I, args[1], s)
    return ret(I, tm.uf('fn2', (a[0], b[0]), tm.bshape(a[1], b[1])), 'float', s, n)


# --------------------------------------------------------------- reductions
def _axis(v, nd):
    """axis argument -> None (all) or tuple of ints"""
    if v is None or (isinstance(v, C) and v.v is None):
        return None
    if isinstance(v, C) and isinstance(v.v, int):
        a = v.v + nd if v.v < 0 else v.v
        if not 0 <= a < nd:
            raise NotNum('ValueError', 'axis %d is out of bounds for array of dimension %d' % (v.v, nd))
        return (a,)
    if isinstance(v, Tu):
        return tuple(_axis(x, nd)[0] for x in v.items)
    raise Unknown()


def _reduce(t, sh, axes, keep, fn, name):
    """apply fn(list of scalar entries)->scalar term along axes; falls back to uf"""
    if axes is None:
        axes = tuple(range(len(sh)))
    rsh = tuple((1 if i in axes else d) for i, d in enumerate(sh) if keep or i not in axes)
    if fn is not None and tm.conc(sh) and t.op in ('lit', 'full', 'const') and tm.nelem(sh) <= 400:
        groups = {}
        order = []
        ent = tm.entries(t)
        for ii, e in zip(tm._indices(sh), ent):
            k = tuple(i for a, i in enumerate(ii) if a not in axes)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(e)
        # indices of empty axes still need entries
        outer = tuple(d for i, d in enumerate(sh) if i not in axes)
        res = []
        for k in tm._indices(outer):
            r = fn(groups.get(tuple(k), []))
            if r is None:
                return tm.uf(name, (t, axes if len(axes) < len(sh) else None), rsh), rsh
            res.append(r)
        return tm.lit(res, rsh), rsh
    return tm.uf(name, (t, (axes if len(axes) > 1 else axes[0]) if len(axes) < len(sh) else None), rsh), rsh


def _sum(es):
    r = tm.ZERO
    for e in es:
        r = tm.arith('add', r, e)
    return r


def _isum(es):
    r = tm.ZERO
    for e in es:
        r = tm.iadd(r, e)
    return r


def _prod(es):
    r = tm.ONE
    for e in es:
        r = tm.arith('mul', r, e)
    return r


def _iprod(es):
    r = tm.ONE
    for e in es:
        r = tm.imul(r, e)
    return r


def _kd(kw):
    return bool(truthy(kw.get('keepdims', FALSE)))


@np_('numpy.sum', 'numpy.nansum')
def np_sum(I, args, kw, s, n):
    v = args[0]
    t, sh, dt = af(I, v, s)
    if sh is None:
        raise Unknown()
    ax = _axis(arg(args, kw, 1, 'axis'), len(sh))
    isint = dt in ('int', 'bool')
    if dt == 'bool' and t.op == 'lit' and not all(e.op == 'const' for e in t.args):
        r, rsh = _reduce(t, sh, ax, _kd(kw), None, 'count')
    else:
        r, rsh = _reduce(t, sh, ax, _kd(kw), _isum if isint else _sum, 'sum')
    k = 'int' if dt == 'bool' else dt
    if rsh == () and k == 'int' and r.op == 'uf':
        tm.BOUNDS.setdefault(r, (0 if dt == 'bool' else None, None))
    return ret(I, r, k, s, n, kw=kw)


@np_('numpy.mean', 'numpy.average')
def np_mean(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    ax = _axis(arg(args, kw, 1, 'axis'), len(sh))
    r, rsh = _reduce(t, sh, ax, _kd(kw), None, 'mean')
    return ret(I, r, 'complex' if dt == 'complex' else 'float', s, n, kw=kw)


@np_('numpy.prod', 'numpy.product')
def np_prod(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    ax = _axis(arg(args, kw, 1, 'axis'), len(sh))
    r, rsh = _reduce(t, sh, ax, _kd(kw), _iprod if dt in ('int', 'bool') else _prod, 'prod')
    return ret(I, r, 'int' if dt == 'bool' else dt, s, n, kw=kw)


def _mmax(which):
    def f(I, args, kw, s, n):
        t, sh, dt = af(I, args[0], s)
        if sh is None:
            raise Unknown()
        ax = _axis(arg(args, kw, 1, 'axis'), len(sh))
        red = [d for i, d in enumerate(sh) if ax is None or i in ax]
        if any(d == 0 for d in red if isinstance(d, int)) and 'initial' not in kw:
            raise NotNum('ValueError', 'zero-size array to reduction operation maximum which has no identity')
        from .builtins_model import minmax

        def g(es):
            v = minmax(which, [N(dt if dt in ORDER else 'num', e) for e in es], {}, s)
            r = num(v, s)
            return r[0] if r else None
        r, rsh = _reduce(t, sh, ax, _kd(kw), g, which)
        return ret(I, r, dt, s, n, kw=kw)
    return f


np_('numpy.max', 'numpy.amax', 'numpy.nanmax')(_mmax('max'))
np_('numpy.min', 'numpy.amin', 'numpy.nanmin')(_mmax('min'))


def _anyall(which):
    def f(I, args, kw, s, n):
        t, sh, dt = af(I, args[0], s)
        if sh is None:
            return one(Top(), s)
        if dt in ('object', 'str'):
            return one(Top(), s)
        axv = arg(args, kw, 1, 'axis')
        ax = _axis(axv, len(sh))
        if ax is None or len(ax) == len(sh):
            c = (any_cond if which == 'any' else all_cond)(t, dt)
            if _kd(kw):
                return ret(I, tm.full(centry(c), (1,) * len(sh)), 'bool', s, n, kw=kw)
            v = cbool(c)
            if isinstance(v, N):
                v = N('bool', v.term, True)
            return one(v, s)
        cs = entry_conds(t, dt)
        if cs is not None and tm.conc(sh):
            bt = tm.lit([centry(c) for c in cs], sh)
            g = ext.disj if which == 'any' else ext.conj
            r, rsh = _reduce(bt, sh, ax, _kd(kw), lambda es: centry(g([tcond(e) for e in es])), which)
        else:
            r, rsh = _reduce(t, sh, ax, _kd(kw), None, 'a' + which)
        return ret(I, r, 'bool', s, n, rsh, kw)
    return f


np_('numpy.any')(_anyall('any'))
np_('numpy.all')(_anyall('all'))


@np_('numpy.count_nonzero')
def np_count_nonzero(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    ax = _axis(arg(args, kw, 1, 'axis'), len(sh or ()))
    cs = entry_conds(t, dt)
    if ax is None:
        if cs is not None and all(isinstance(c, bool) for c in cs):
            return one(C(sum(cs)), s)
        hi = tm.nelem(sh) if tm.conc(sh) else None
        lo = sum(1 for c in cs if c is True) if cs is not None else 0
        k = tm.uf('count', (t, dt), ())
        tm.BOUNDS.setdefault(k, (lo, hi))
        return one(N('int', k), s)
    r, rsh = _reduce(t, sh, ax, False, None, 'count')
    return ret(I, r, 'int', s)


def _argm(name):
    def f(I, args, kw, s, n):
        t, sh, dt = af(I, args[0], s)
        ax = _axis(arg(args, kw, 1, 'axis'), len(sh or ()))
        if ax is None:
            if tm.conc(sh):
                k = tm.nelem(sh)
                if k == 0:
                    raise NotNum('ValueError', 'attempt to get %s of an empty sequence' % name)
                es = tm.entries(t)
                if all(e.op == 'const' for e in es):
                    vs = [e.args[0] for e in es]
                    return one(C(vs.index(max(vs) if name == 'argmax' else min(vs))), s)
                if k == 1:
                    return one(C(0), s)
                u = tm.uf(name, (t,), ())
                tm.BOUNDS.setdefault(u, (0, k - 1))
                return one(N('int', u, True), s)
            return one(N('int', tm.dimvar(name)), s)
        r, rsh = _reduce(t, sh, ax, False, None, name)
        return ret(I, r, 'int', s)
    return f


np_('numpy.argmax', 'numpy.nanargmax')(_argm('argmax'))
np_('numpy.argmin', 'numpy.nanargmin')(_argm('argmin'))


@np_('numpy.trace')
def np_trace(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if tm.conc(sh) and t.op == 'lit' and len(sh) == 2:
        return ret(I, _sum([t.args[i * sh[1] + i] for i in range(min(sh))]), dt, s)
    return ret(I, tm.uf('trace', (t,), ()), dt, s)


@np_('numpy.cumsum', 'numpy.cumprod')
def np_cumsum(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    axv = arg(args, kw, 1, 'axis')
    if (axv is None or (isinstance(axv, C) and axv.v is None)) and len(sh) != 1:
        t, sh = tm.reshape(t, flatshape(sh)), flatshape(sh)
    k = 'int' if dt == 'bool' else dt
    if tm.conc(sh) and len(sh) == 1 and t.op == 'lit':
        out, acc = [], tm.ZERO
        for e in t.args:
            acc = tm.iadd(acc, e) if k == 'int' else tm.arith('add', acc, e)
            out.append(acc)
        return ret(I, tm.lit(out, sh), k, s)
    return ret(I, tm.uf('cumsum', (t,), sh), k, s)


@np_('numpy.diff')
def np_diff(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    ax = cint(kw.get('axis', C(-1)))
    ax = len(sh) - 1 if ax == -1 else ax
    d = sh[ax]
    if tm.conc(sh) and len(sh) == 1 and t.op == 'lit':
        es = t.args
        return ret(I, tm.lit([tm.arith('sub', es[i + 1], es[i]) for i in range(max(0, len(es) - 1))], (max(0, len(es) - 1),)), dt, s)
    nd = max(0, d - 1) if isinstance(d, int) else tm.dim_of(tm.iadd(d, tm.ONE, -1))
    return ret(I, tm.uf('diff', (t,), sh[:ax] + (nd,) + sh[ax + 1:]), dt, s)


# -------------------------------------------------------------- shape changes
@np_('numpy.shape')
def np_shape(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if sh is None:
        raise Unknown()
    return one(Tu([dimval(d) for d in sh]), s)


@np_('numpy.ndim')
def np_ndim(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    return one(C(len(sh)) if sh is not None else Top(), s)


@np_('numpy.size')
def np_size(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if sh is None:
        raise Unknown()
    ax = arg(args, kw, 1, 'axis')
    if ax is not None and cint(ax) is not None:
        return one(dimval(sh[cint(ax)]), s)
    return one(dimval(flatshape(sh)[0]), s)


@np_('numpy.ravel')
def np_ravel(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    o = arg(args, kw, 1, 'order', C('C'))
    if isinstance(o, C) and o.v == 'F' and a.shape is not None and len(a.shape) > 1:
        t = aterm(a, s)
        return one(s.new_arr(tm.reshape(tm.transpose(t), flatshape(a.shape)), a.dtype, flatshape(a.shape)), s)
    return one(_view_reshape(a, flatshape(a.shape)), s)


@meth('flatten')
def m_flatten(I, a, args, kw, s, n):
    a = asarr(I, a, s)
    t = aterm(a, s)
    sh = flatshape(a.shape)
    o = arg(args, kw, 0, 'order', C('C'))
    if isinstance(o, C) and o.v == 'F':
        t = tm.transpose(t)
    return one(s.new_arr(tm.reshape(t, sh), a.dtype, sh), s)


@meth('ravel')
def m_ravel(I, a, args, kw, s, n):
    return np_ravel(I, [a] + args, kw, s, n)


def _resh(I, a, sv, order, s, n):
    sh = list(sv)
    tot = flatshape(a.shape)[0]
    neg = [i for i, d in enumerate(sh) if isinstance(d, int) and d == -1]
    if neg:
        rest = 1
        for i, d in enumerate(sh):
            if i != neg[0]:
                rest = rest * d if isinstance(rest, int) and isinstance(d, int) else None
                if rest is None:
                    break
        if isinstance(tot, int) and rest is not None:
            if rest == 0 or tot % rest:
                raise NotNum('ValueError', 'cannot reshape array of size %s into shape %s' % (tot, tuple(sh)))
            sh[neg[0]] = tot // rest
        elif rest == 1:
            sh[neg[0]] = tot
        else:
            sh[neg[0]] = tm.dimvar('resh', 0)
    elif isinstance(tot, int) and all(isinstance(d, int) for d in sh):
        if tm.nelem(sh) != tot:
            raise NotNum('ValueError', 'cannot reshape array of size %s into shape %s' % (tot, tuple(sh)))
    sh = tuple(sh)
    if order == 'F' and tm.conc(a.shape) and tm.conc(sh):
        t = tm.transpose(tm.reshape(tm.transpose(aterm(a, s)), tuple(reversed(sh))))
        return one(s.new_arr(t, a.dtype, sh), s)
    return one(_view_reshape(a, sh), s)


@np_('numpy.reshape')
def np_reshape(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    if a.shape is None:
        raise Unknown()
    o = arg(args, kw, 2, 'order', C('C'))
    return _resh(I, a, toshape(arg(args, kw, 1, 'newshape', kw.get('shape')), s), o.v if isinstance(o, C) else 'C', s, n)


@meth('reshape')
def m_reshape(I, a, args, kw, s, n):
    a = asarr(I, a, s)
    if a.shape is None:
        raise Unknown()
    o = kw.get('order', C('C'))
    sv = toshape(args[0], s) if len(args) == 1 else tuple(todim(x) for x in args)
    return _resh(I, a, sv, o.v if isinstance(o, C) else 'C', s, n)


@np_('numpy.squeeze')
def np_squeeze(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    if a.shape is None:
        raise Unknown()
    ax = _axis(arg(args, kw, 1, 'axis'), len(a.shape))
    if ax is not None:
        for i in ax:
            if isinstance(a.shape[i], int) and a.shape[i] != 1:
                raise NotNum('ValueError', 'cannot select an axis to squeeze out which has size not equal to one')
        sh = tuple(d for i, d in enumerate(a.shape) if i not in ax)
    else:
        sh = tuple(d for d in a.shape if not (isinstance(d, int) and d == 1))
    return one(_view_reshape(a, sh), s)


@np_('numpy.expand_dims')
def np_expand_dims(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    ax = cint(arg(args, kw, 1, 'axis'))
    nd = len(a.shape) + 1
    ax = ax + nd if ax < 0 else ax
    return one(_view_reshape(a, a.shape[:ax] + (1,) + a.shape[ax:]), s)


@np_('numpy.transpose')
def np_transpose(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    rest = args[1:]
    if 'axes' in kw:
        rest = [kw['axes']]
    if a.shape is None:
        raise Unknown()
    if not rest or (isinstance(rest[0], C) and rest[0].v is None):
        ax = tuple(reversed(range(len(a.shape))))
    elif len(rest) == 1 and not isinstance(rest[0], C):
        ax = tuple(todim(x) for x in seqitems(rest[0], s))
    else:
        ax = tuple(todim(x) for x in rest)
    ax = tuple(x % len(a.shape) for x in ax)
    if len(a.shape) < 2:
        return one(a, s)
    return one(A(a.buf, tuple(a.shape[i] for i in ax), a.dtype, a.view + (('T', ax),)), s)


def _perm(a, ax, s):
    return one(A(a.buf, tuple(a.shape[i] for i in ax), a.dtype, a.view + (('T', tuple(ax)),)), s)


@np_('numpy.swapaxes')
def np_swapaxes(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    ax = list(range(len(a.shape)))
    i, j = cint(args[1]) % len(ax), cint(args[2]) % len(ax)
    ax[i], ax[j] = ax[j], ax[i]
    return _perm(a, ax, s)


@np_('numpy.moveaxis')
def np_moveaxis(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    src = [cint(args[1])] if cint(args[1]) is not None else [cint(x) for x in seqitems(args[1], s)]
    dst = [cint(args[2])] if cint(args[2]) is not None else [cint(x) for x in seqitems(args[2], s)]
    nd = len(a.shape)
    src, dst = [x % nd for x in src], [x % nd for x in dst]
    order = [x for x in range(nd) if x not in src]
    for d, x in sorted(zip(dst, src)):
        order.insert(d, x)
    return _perm(a, order, s)


@np_('numpy.rollaxis')
def np_rollaxis(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    nd = len(a.shape)
    ax = cint(args[1]) % nd
    st = cint(arg(args, kw, 2, 'start', C(0)))
    st = st + nd if st < 0 else st
    if ax < st:
        st -= 1
    order = [x for x in range(nd) if x != ax]
    order.insert(st, ax)
    return _perm(a, order, s)


def _flip(axis):
    def f(I, args, kw, s, n):
        a = asarr(I, args[0], s)
        axx = axis
        if axis == 'kw':
            v = arg(args, kw, 1, 'axis')
            axx = range(len(a.shape)) if v is None or truthy(v) is False and v.v is None else _axis(v, len(a.shape))
        else:
            axx = (axis,)
        if any(x >= len(a.shape) for x in axx):
            raise NotNum('ValueError', 'Input must be >= 2-d.')
        k = Tu([SL(NONE, NONE, C(-1)) if i in axx else SL(NONE, NONE, NONE) for i in range(len(a.shape))])
        return ext.getitem(I, a, k, s, n)
    return f


np_('numpy.flipud')(_flip(0))
np_('numpy.fliplr')(_flip(1))
np_('numpy.flip')(_flip('kw'))


@np_('numpy.roll')
def np_roll(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    k = cint(arg(args, kw, 1, 'shift'))
    ax = arg(args, kw, 2, 'axis')
    if tm.conc(sh) and k is not None and (len(sh) == 1 or (ax is not None and cint(ax) is not None)):
        a = 0 if ax is None or cint(ax) is None else cint(ax) % len(sh)
        d = sh[a]
        idx = [('s', None, None, None)] * a + [('a', (d,), tuple((i - k) % d for i in range(d)) if d else ())]
        return ret(I, tm.getitem(t, tuple(idx)), dt, s)
    return ret(I, leafarr('roll', sh, t), dt, s)


@np_('numpy.repeat')
def np_repeat(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    r = arg(args, kw, 1, 'repeats')
    ax = arg(args, kw, 2, 'axis')
    if sh is None:
        raise Unknown()
    if ax is None or (isinstance(ax, C) and ax.v is None):
        fs = flatshape(sh)
        t, sh, a = tm.reshape(t, fs), fs, 0
    else:
        a = cint(ax) % len(sh)
    k = cint(r)
    d = sh[a]
    if k is not None and tm.conc(sh):
        idx = tuple([('s', None, None, None)] * a + [('a', (d * k,), tuple(i // k for i in range(d * k)))])
        return ret(I, tm.getitem(t, idx), dt, s)
    if isinstance(r, (C, N)):
        nd = tm.dim_of(tm.imul(tm.dim_term(d), num(r, s)[0]))
    else:
        nd = tm.dimvar('rep')
    return ret(I, leafarr('repeat', sh[:a] + (nd,) + sh[a + 1:], t), dt, s)


@np_('numpy.tile')
def np_tile(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    reps = toshape(args[1], s)
    nd = max(len(sh), len(reps))
    sh = (1,) * (nd - len(sh)) + tuple(sh)
    reps = (1,) * (nd - len(reps)) + tuple(reps)
    if tm.conc(sh) and tm.conc(reps):
        t = tm.reshape(t, sh)
        for a in range(nd):
            if reps[a] != 1:
                t = tm.getitem(t, tuple([('s', None, None, None)] * a + [('a', (sh[a] * reps[a],), tuple(i % sh[a] for i in range(sh[a] * reps[a])) if sh[a] else ())]))
        return ret(I, t, dt, s)
    return ret(I, leafarr('tile', tuple(tm.dim_of(tm.imul(tm.dim_term(a), tm.dim_term(b))) for a, b in zip(sh, reps)), t), dt, s)


@np_('numpy.broadcast_to')
def np_broadcast_to(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    tgt = toshape(args[1], s)
    r = tm.bshape(sh, tgt)
    if tm.conc(tgt) and r != tuple(tgt):
        raise ShapeError('operands could not be broadcast')
    if tm.conc(tgt) and tm.conc(sh):
        return ret(I, tm.lit(tm.bentries(tm.lit(tm.entries(t), sh) if sh != () else t, tgt), tgt), dt, s)
    return ret(I, leafarr('bcast', tgt, t), dt, s)


@np_('numpy.append')
def np_append(I, args, kw, s, n):
    ax = arg(args, kw, 2, 'axis')
    if ax is None or (isinstance(ax, C) and ax.v is None):
        ps = []
        for v in args[:2]:
            t, sh, dt = af(I, v, s)
            fs = flatshape(sh)
            ps.append((tm.reshape(t, fs), fs, dt))
        return concat_parts(I, ps, 0, s)
    return concat_parts(I, [af(I, v, s) for v in args[:2]], cint(ax), s)


def concat_parts(I, ps, axis, s):
    if not ps:
        raise NotNum('ValueError', 'need at least one array to concatenate')
    if any(p[1] is None for p in ps):
        raise Unknown()
    if axis is None:
        ps = [(tm.reshape(p[0], flatshape(p[1])), flatshape(p[1]), p[2]) for p in ps]
        axis = 0
    nd = len(ps[0][1])
    if nd == 0:
        raise NotNum('ValueError', 'zero-dimensional arrays cannot be concatenated')
    if any(len(p[1]) != nd for p in ps):
        raise NotNum('ValueError', 'all the input arrays must have same number of dimensions')
    if not -nd <= axis < nd:
        raise NotNum('ValueError', 'axis %d is out of bounds' % axis)
    axis %= nd
    sh = list(ps[0][1])
    tot = tm.ZERO
    for p in ps:
        for i in range(nd):
            a, b = sh[i], p[1][i]
            if i != axis:
                if isinstance(a, int) and isinstance(b, int):
                    if a != b:
                        raise NotNum('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
                elif isinstance(b, int):
                    sh[i] = b
        tot = tm.iadd(tot, tm.dim_term(p[1][axis]))
    sh[axis] = tm.dim_of(tot)
    dt = ps[0][2]
    for p in ps[1:]:
        dt = jk(dt, p[2])
    return ret(I, tm.concat([p[0] for p in ps], axis, tuple(sh)), dt, s)


def _items(I, v, s):
    if isinstance(v, A):
        if v.shape is None or not v.shape or not isinstance(v.shape[0], int):
            raise Unknown()
        return I.iterate(v, s, None)[0][0]
    it = seqitems(v, s)
    if it is None:
        raise Unknown()
    return it


@np_('numpy.concatenate')
def np_concatenate(I, args, kw, s, n):
    v = arg(args, kw, 0, 'arrays')
    it = seqitems(v, s)
    if it is None and isinstance(v, R) and isinstance(s.heap.get(v.id), HList):
        return one(unk_concat(I, s.heap[v.id], cint(arg(args, kw, 1, 'axis', C(0))), s), s)
    ps = [af(I, x, s) for x in _items(I, v, s)]
    ax = arg(args, kw, 1, 'axis', C(0))
    return concat_parts(I, ps, cint(ax), s)


def unk_concat(I, h, axis, s):
    e = h.elem
    if isinstance(e, A) and e.shape is not None and axis is not None and axis < len(e.shape):
        sh = list(e.shape)
        sh[axis] = tm.dimvar('cat')
        return s.new_arr(leafarr('concat', sh), e.dtype)
    return Top()


@np_('numpy.vstack', 'numpy.row_stack')
def np_vstack(I, args, kw, s, n):
    ps = []
    for x in _items(I, args[0], s):
        t, sh, dt = af(I, x, s)
        if sh is None:
            raise Unknown()
        if len(sh) < 2:
            sh = (1,) * (2 - len(sh)) + tuple(sh)
            t = tm.reshape(t, sh)
        ps.append((t, sh, dt))
    return concat_parts(I, ps, 0, s)


@np_('numpy.hstack')
def np_hstack(I, args, kw, s, n):
    ps = []
    for x in _items(I, args[0], s):
        t, sh, dt = af(I, x, s)
        if sh == ():
            sh = (1,)
            t = tm.reshape(t, sh)
        ps.append((t, sh, dt))
    if ps and ps[0][1] is not None and len(ps[0][1]) == 1:
        return concat_parts(I, ps, 0, s)
    return concat_parts(I, ps, 1, s)


@np_('numpy.column_stack')
def np_column_stack(I, args, kw, s, n):
    ps = []
    for x in _items(I, args[0], s):
        t, sh, dt = af(I, x, s)
        if len(sh) < 2:
            sh = (flatshape(sh)[0], 1)
            t = tm.reshape(t, sh)
        ps.append((t, sh, dt))
    return concat_parts(I, ps, 1, s)


@np_('numpy.dstack')
def np_dstack(I, args, kw, s, n):
    ps = []
    for x in _items(I, args[0], s):
        t, sh, dt = af(I, x, s)
        if len(sh) == 2:
            sh2 = tuple(sh) + (1,)
        elif len(sh) == 1:
            sh2 = (1,) + tuple(sh) + (1,)
        elif len(sh) == 0:
            sh2 = (1, 1, 1)
        else:
            sh2 = sh
        ps.append((tm.reshape(t, sh2), sh2, dt))
    return concat_parts(I, ps, 2, s)


@np_('numpy.stack')
def np_stack(I, args, kw, s, n):
    ax = cint(arg(args, kw, 1, 'axis', C(0)))
    ps = []
    for x in _items(I, args[0], s):
        t, sh, dt = af(I, x, s)
        a = ax % (len(sh) + 1)
        sh2 = tuple(sh[:a]) + (1,) + tuple(sh[a:])
        ps.append((tm.reshape(t, sh2), sh2, dt))
    return concat_parts(I, ps, ax, s)


@np_('numpy.block')
def np_block(I, args, kw, s, n):
    def depth(v):
        it = seqitems(v, s) if not isinstance(v, Tu) else None
        if it is None:
            return 0
        return 1 + max([depth(x) for x in it], default=0)

    d = depth(args[0])
    if d == 0:
        v = args[0]
        if isinstance(v, R):
            raise Unknown()
        return one(asarr(I, v, s), s)

    def rec(v, level):
        if level == 0:
            t, sh, dt = af(I, v, s)
            if sh is None:
                raise Unknown()
            return (t, sh, dt)
        it = seqitems(v, s)
        if it is None:
            raise Unknown()
        ps = [rec(x, level - 1) for x in it]
        nd = max([len(p[1]) for p in ps] + [d])
        q = []
        for t, sh, dt in ps:
            if len(sh) < nd:
                sh = (1,) * (nd - len(sh)) + tuple(sh)
                t = tm.reshape(t, sh)
            q.append((t, sh, dt))
        r = concat_parts(I, q, nd - level, s)[0][0]
        return (aterm(r, s), r.shape, r.dtype)
    t, sh, dt = rec(args[0], d)
    return ret(I, t, dt, s, n, sh)


def index_trick(I, path, k, s, n):
    if path in ('numpy.s_', 'numpy.index_exp'):
        return one(k, s)
    try:
        parts = list(k.items) if isinstance(k, Tu) else [k]
        ps = []
        col = path == 'numpy.c_'
        for p in parts:
            if isinstance(p, SL):
                a = p.a if not (isinstance(p.a, C) and p.a.v is None) else C(0)
                c = p.c if not (isinstance(p.c, C) and p.c.v is None) else C(1)
                r = ext.REG['numpy.arange'](I, [a, p.b, c], {}, s, n)[0][0]
                if isinstance(r, Raise):
                    return one(r, s)
                t, sh, dt = af(I, r, s)
            elif isinstance(p, C) and isinstance(p.v, str):
                raise Unknown()
            else:
                t, sh, dt = af(I, p, s)
            if sh is None:
                raise Unknown()
            if sh == ():
                sh = (1,)
                t = tm.reshape(t, sh)
            if col and len(sh) == 1:
                sh = (sh[0], 1)
                t = tm.reshape(t, sh)
            ps.append((t, sh, dt))
        if col:
            return concat_parts(I, ps, -1, s)
        return concat_parts(I, ps, 0, s)
    except Unknown:
        return one(Top(), s)
    except NotNum as e:
        return one(I.err(e.exc, e.msg, n), s)


@np_('numpy.delete')
def np_delete(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    ax = arg(args, kw, 2, 'axis')
    if sh is None:
        raise Unknown()
    if ax is None or (isinstance(ax, C) and ax.v is None):
        fs = flatshape(sh)
        t, sh, a = tm.reshape(t, fs), fs, 0
    else:
        a = cint(ax) % len(sh)
    o = args[1]
    d = sh[a]
    drop = None
    if isinstance(o, SL):
        if all(isinstance(x, C) for x in (o.a, o.b, o.c)) and isinstance(d, int):
            drop = set(range(d)[slice(o.a.v, o.b.v, o.c.v)])
    else:
        ot, osh, odt = af(I, o, s)
        if tm.conc(osh):
            es = tm.entries(ot) if tm.nelem(osh) else []
            if all(e.op == 'const' for e in es) and isinstance(d, int):
                if odt == 'bool':
                    drop = {i for i, e in enumerate(es) if e.args[0]}
                else:
                    for e in es:
                        if not -d <= e.args[0] < d:
                            raise NotNum('IndexError', 'index %s is out of bounds for axis %d with size %d' % (e.args[0], a, d))
                    drop = {e.args[0] % d for e in es} if d else set()
    if drop is not None and tm.conc(sh):
        keep = tuple(i for i in range(d) if i not in drop)
        return ret(I, tm.getitem(t, tuple([('s', None, None, None)] * a + [('a', (len(keep),), keep)])), dt, s)
    return ret(I, leafarr('delete', sh[:a] + (tm.dimvar('del', 0, d if isinstance(d, int) else None),) + sh[a + 1:], t), dt, s)


@np_('numpy.insert')
def np_insert(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    p, v = cint(args[1]), af(I, args[2], s)
    if len(sh) == 1 and p is not None and v[1] == () and tm.conc(sh):
        es = list(tm.entries(t))
        es.insert(p, v[0])
        return ret(I, tm.lit(es, (len(es),)), dt, s)
    raise Unknown()


@np_('numpy.diag')
def np_diag(I, args, kw, s, n):
    t, sh, dt = af(I, arg(args, kw, 0, 'v'), s)
    k = cint(arg(args, kw, 1, 'k', C(0)))
    if sh is None or k is None:
        raise Unknown()
    if len(sh) == 1:
        d = sh[0]
        if isinstance(d, int):
            m = d + abs(k)
            es = tm.entries(t)
            ent = []
            for i in range(m):
                for j in range(m):
                    ent.append(es[min(i, j)] if j - i == k else tm.ZERO)
            return ret(I, tm.lit(ent, (m, m)), dt, s)
        dd = tm.dim_of(tm.iadd(d, tm.const(abs(k))))
        return ret(I, tm.uf('diag', (t, k), (dd, dd)), dt, s)
    if len(sh) == 2:
        if tm.conc(sh):
            pos = [(i, i + k) for i in range(sh[0]) if 0 <= i + k < sh[1]]
            r = tm.getitem(t, (('a', (len(pos),), tuple(p[0] for p in pos)), ('a', (len(pos),), tuple(p[1] for p in pos))))
            return ret(I, r, dt, s, n, (len(pos),))
        d = sh[0] if k == 0 else tm.dimvar('diag')
        return ret(I, tm.uf('getdiag', (t, k), (d,)), dt, s)
    raise NotNum('ValueError', 'Input must be 1- or 2-d.')


@np_('numpy.diagonal')
def np_diagonal(I, args, kw, s, n):
    k = arg(args, kw, 1, 'offset', C(0))
    return np_diag(I, [args[0], k], {}, s, n)


@np_('numpy.diagflat')
def np_diagflat(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    fs = flatshape(sh)
    return np_diag(I, [s.new_arr(tm.reshape(t, fs), dt, fs)] + args[1:], kw, s, n)


def _tri(up):
    def f(I, args, kw, s, n):
        t, sh, dt = af(I, args[0], s)
        k = cint(arg(args, kw, 1, 'k', C(0)))
        if tm.conc(sh) and len(sh) == 2 and k is not None:
            es = tm.entries(t)
            ent = []
            for i in range(sh[0]):
                for j in range(sh[1]):
                    ent.append(es[i * sh[1] + j] if (j - i >= k if up else j - i <= k) else tm.ZERO)
            return ret(I, tm.lit(ent, sh), dt, s)
        return ret(I, leafarr('triu' if up else 'tril', sh, t, k), dt, s)
    return f


np_('numpy.triu')(_tri(True))
np_('numpy.tril')(_tri(False))


@np_('numpy.diag_indices')
def np_diag_indices(I, args, kw, s, n):
    d = todim(args[0])
    nd = cint(arg(args, kw, 1, 'ndim', C(2)))
    if isinstance(d, int):
        t = tm.lit([tm.const(i) for i in range(d)], (d,))
    else:
        t = tm.uf('arange', (tm.ZERO, d), (d,))
    a = s.new_arr(t, 'int', (d,))
    return one(Tu([a] * nd), s)


@np_('numpy.fill_diagonal')
def np_fill_diagonal(I, args, kw, s, n):
    a = args[0]
    if isinstance(a, A) and tm.conc(a.shape) and len(a.shape) == 2:
        k = min(a.shape)
        ix = s.new_arr(tm.lit([tm.const(i) for i in range(k)], (k,)), 'int')
        return [(r if isinstance(r, Raise) else NONE, t) for r, t in ext.setitem(I, a, Tu([ix, ix]), args[1], s, n)]
    if isinstance(a, A):
        awrite(I, a, leafarr('fd', a.shape), s, n)
    return one(NONE, s)


@np_('numpy.copyto')
def np_copyto(I, args, kw, s, n):
    if isinstance(args[0], A):
        return [(r if isinstance(r, Raise) else NONE, t) for r, t in ext.setitem(I, args[0], C(Ellipsis), args[1], s, n)]
    return one(NONE, s)


@np_('numpy.put', 'numpy.place', 'numpy.putmask', 'numpy.put_along_axis')
def np_put(I, args, kw, s, n):
    a = args[0]
    if isinstance(a, A):
        awrite(I, a, leafarr('put', a.shape), s, n)
    return one(NONE, s)


@np_('numpy.take')
def np_take(I, args, kw, s, n):
    ax = arg(args, kw, 2, 'axis')
    a = asarr(I, args[0], s)
    if ax is None or (isinstance(ax, C) and ax.v is None):
        return ext.getitem(I, _view_reshape(a, flatshape(a.shape)), _ilist(I, args[1], s), s, n)
    i = cint(ax) % len(a.shape)
    return ext.getitem(I, a, Tu([SL(NONE, NONE, NONE)] * i + [_ilist(I, args[1], s)]), s, n)


def _ilist(I, v, s):
    return v


@np_('numpy.ix_')
def np_ix(I, args, kw, s, n):
    out = []
    for i, v in enumerate(args):
        a = asarr(I, v, s)
        if a.shape is None or len(a.shape) != 1:
            raise NotNum('ValueError', 'Cross index must be 1 dimensional')
        if a.dtype == 'bool' or a.dtype == 'float' and a.shape == (0,):
            if a.dtype == 'bool':
                a = np_nonzero(I, [a], {}, s, n)[0][0].items[0]
            else:
                a = s.new_arr(aterm(a, s), 'int', a.shape)
        sh = [1] * len(args)
        sh[i] = a.shape[0]
        out.append(_view_reshape(a, tuple(sh)))
    return one(Tu(out), s)


@np_('numpy.meshgrid', 'numpy.indices')
def np_mesh(I, args, kw, s, n):
    raise Unknown()


# ------------------------------------------------------- search and sorting
@np_('numpy.nonzero', 'numpy.argwhere', 'numpy.flatnonzero')
def np_nonzero(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if sh is None:
        raise Unknown()
    cs = entry_conds(t, dt)
    if cs is not None and all(isinstance(c, bool) for c in cs):
        idx = [ii for ii, c in zip(tm._indices(sh), cs) if c]
        return one(Tu([s.new_arr(tm.lit([tm.const(i[a]) for i in idx], (len(idx),)), 'int') for a in range(len(sh))]), s)
    hi = tm.nelem(sh) if tm.conc(sh) else None
    d = tm.dimvar('nz', 0, hi)
    return one(Tu([s.new_arr(leafarr('nonzero', (d,), t, a, d), 'int', (d,)) for a in range(len(sh))]), s)


@np_('numpy.flatnonzero')
def np_flatnonzero(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    r = np_nonzero(I, [_view_reshape(a, flatshape(a.shape))], {}, s, n)
    return one(r[0][0].items[0], s)


@np_('numpy.argwhere')
def np_argwhere(I, args, kw, s, n):
    raise Unknown()


@np_('numpy.where')
def np_where(I, args, kw, s, n):
    if len(args) == 1:
        return np_nonzero(I, args, kw, s, n)
    ct, csh = _bterm(I, args[0], s)
    a, b = af(I, args[1], s), af(I, args[2], s)
    sh = tm.bshape(tm.bshape(csh, a[1]), b[1])
    k = jk(a[2], b[2])
    if sh is not None and tm.conc(sh) and tm.entrywise(ct) and tm.nelem(sh) <= 200:
        es = []
        for c, x, y in zip(tm.bentries(ct, sh), tm.bentries(_lit(a[0]), sh), tm.bentries(_lit(b[0]), sh)):
            c = tcond(c)
            if c is True:
                es.append(x)
            elif c is False:
                es.append(y)
            elif x is y:
                es.append(x)
            elif tm.is_zero(x) and _absof(c, y) or tm.is_zero(y) and _absof(c, x):
                es.append(tm.uf('thresh', (y if tm.is_zero(x) else x,), ()))
            else:
                es.append(tm.uf('where', (c, x, y), ()))
        return ret(I, tm.lit(es, sh), k, s, n)
    for z, o in ((a, b), (b, a)):
        if tm.is_zero(z[0]) and z[1] == () and o[1] == sh and any(x.op == 'uf' and x.args[0] == 'abs' and x.args[1] is o[0] for x in tm.walk(ct)):
            return ret(I, tm.uf('thresh', (o[0],), sh), k, s, n, sh)
    return ret(I, tm.uf('where', (ct, a[0], b[0]), sh), k, s, n, sh)


def _lit(t):
    if t.shape == () or t.op == 'lit':
        return t
    return tm.lit(tm.entries(t), t.shape)


def _absof(c, x):
    return not isinstance(c, bool) and any(y.op == 'uf' and y.args[0] == 'abs' and y.args[1] is x for y in tm.walk(c))


@np_('numpy.sort', 'numpy.sort_complex', 'numpy.msort')
def np_sort(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if tm.conc(sh) and len(sh) == 1:
        es = tm.entries(t)
        if len(es) <= 1 or all(e.op == 'const' and not isinstance(e.args[0], complex) for e in es):
            return ret(I, tm.lit(sorted(es, key=lambda e: e.args[0]) if len(es) > 1 else es, sh), dt, s)
    return ret(I, leafarr('sort', sh, t), dt, s)


@np_('numpy.argsort')
def np_argsort(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if tm.conc(sh) and len(sh) == 1:
        es = tm.entries(t)
        if all(e.op == 'const' for e in es):
            o = sorted(range(len(es)), key=lambda i: es[i].args[0])
            return ret(I, tm.lit([tm.const(i) for i in o], sh), 'int', s)
        if len(es) == 1:
            return ret(I, tm.lit([tm.ZERO], sh), 'int', s)
    return ret(I, leafarr('argsort', sh, t), 'int', s)


@np_('numpy.unique')
def np_unique(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    nret = 1 + sum(1 for k in ('return_index', 'return_inverse', 'return_counts') if truthy(kw.get(k, FALSE)))
    if tm.conc(sh) and nret == 1:
        es = tm.entries(t)
        if all(e.op == 'const' for e in es):
            u = sorted({e.args[0] for e in es})
            return ret(I, tm.lit([tm.const(x) for x in u], (len(u),)), dt, s)
        if len(es) == 1:
            return ret(I, tm.reshape(t, (1,)), dt, s)
    hi = tm.nelem(sh) if tm.conc(sh) else None
    d = tm.dimvar('uniq', 1 if hi else 0, hi)
    v = s.new_arr(leafarr('unique', (d,), t, d), dt, (d,))
    if nret > 1:
        return one(Tu([v] + [s.new_arr(leafarr('uniq_i', (d,)), 'int') for _ in range(nret - 1)]), s)
    return one(v, s)


@np_('numpy.searchsorted', 'numpy.digitize')
def np_searchsorted(I, args, kw, s, n):
    a, b = af(I, args[0], s), af(I, args[1], s)
    if b[1] == ():
        return one(N('int', tm.dimvar('ss')), s)
    return ret(I, leafarr('ss', b[1]), 'int', s)


@np_('numpy.interp')
def np_interp(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    return ret(I, leafarr('interp', sh, t, af(I, args[1], s)[0], af(I, args[2], s)[0]), 'float', s, n, sh)


@np_('numpy.isin', 'numpy.in1d')
def np_isin(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    u, us, ud = af(I, args[1], s)
    if tm.conc(sh) and tm.conc(us):
        es = [centry(ext.disj([cmp_scalar('eq', e, f) for f in tm.entries(u)])) for e in tm.entries(t)]
        return ret(I, tm.lit(es, sh), 'bool', s, n, sh)
    return ret(I, leafarr('isin', sh), 'bool', s)


@np_('numpy.setdiff1d', 'numpy.union1d', 'numpy.intersect1d')
def np_setops(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    return ret(I, leafarr('setop', (tm.dimvar('setop'),)), dt, s)


# -------------------------------------------------------------- comparisons
@np_('numpy.allclose')
def np_allclose(I, args, kw, s, n):
    a, b = af(I, args[0], s), af(I, args[1], s)
    sh = tm.bshape(a[1], b[1])
    if a[2] in ('object', 'str') or b[2] in ('object', 'str'):
        raise NotNum('TypeError', "ufunc 'isfinite' not supported for the input types")
    if a[0] is b[0]:
        return one(TRUE, s)
    if sh is not None and tm.conc(sh) and tm.nelem(sh) == 0:
        return one(TRUE, s)
    c = close_cond(a[0], b[0], sh, tolerances(I, args, kw, s))
    return one(cbool(c), s)


def tolerances(I, args, kw, s):
    """(rtol, atol) as terms"""
    out = []
    for k, (nm, d) in enumerate((('rtol', 1e-5), ('atol', 1e-8))):
        v = kw.get(nm, args[2 + k] if len(args) > 2 + k else None)
        t = tm.const(d) if v is None else af(I, v, s)[0]
        if t.shape != ():
            raise Unknown()
        out.append(t)
    return tuple(out)


def close_cond(ta, tb, sh, tol=None):
    if sh is not None and tm.conc(sh) and tm.entrywise(ta) and tm.entrywise(tb) and tm.nelem(sh) <= 64:
        return ext.conj([close1(x, y, tol) for x, y in zip(tm.bentries(ta, sh), tm.bentries(tb, sh))])
    return tm.uf('cond', ('close', ta, tb), ())


def close1(x, y, tol=None):
    if x is y:
        return True
    cx, cy = tm.constval(x), tm.constval(y)
    r, a = (1e-5, 1e-8) if tol is None else [tm.constval(e) for e in tol]
    if cx is not None and cy is not None:
        if r is None or a is None:
            return tm.uf('cond', ('close', x, y) + tuple(tol), ())
        try:
            return abs(cx - cy) <= a + r * abs(cy)
        except Exception:
            return False
    if r is None or a is None or r > 1e-3 or a > 1e-3:
        # too coarse to stand for equality
        return tm.uf('cond', ('close', x, y) + tuple(tol), ())
    return cmp_scalar('eq', x, y)


@np_('numpy.isclose')
def np_isclose(I, args, kw, s, n):
    a, b = af(I, args[0], s), af(I, args[1], s)
    sh = tm.bshape(a[1], b[1])
    tol = tolerances(I, args, kw, s)
    if sh == ():
        return one(cbool(close1(a[0], b[0], tol)), s)
    if sh is not None and tm.conc(sh) and tm.entrywise(a[0]) and tm.entrywise(b[0]) and tm.nelem(sh) <= 64:
        return ret(I, tm.lit([centry(close1(x, y, tol)) for x, y in zip(tm.bentries(a[0], sh), tm.bentries(b[0], sh))], sh), 'bool', s)
    return ret(I, tm.uf('isclose', (a[0], b[0]), sh), 'bool', s, n, sh)


@np_('numpy.array_equal', 'numpy.array_equiv')
def np_array_equal(I, args, kw, s, n):
    try:
        a, b = af(I, args[0], s), af(I, args[1], s)
    except NotNum:
        return one(FALSE, s)
    if a[1] is None or b[1] is None:
        raise Unknown()
    if len(a[1]) != len(b[1]):
        return one(FALSE, s)
    for x, y in zip(a[1], b[1]):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return one(FALSE, s)
        elif x is not y:
            return one(N('bool', tm.uf('cond', ('aeq', a[0], b[0]), ())), s)
    if a[0] is b[0]:
        return one(TRUE, s)
    if tm.conc(a[1]) and tm.entrywise(a[0]) and tm.entrywise(b[0]):
        return one(cbool(ext.conj([cmp_scalar('eq', x, y) for x, y in zip(tm.entries(a[0]), tm.entries(b[0]))])), s)
    if tm.conc(a[1]) and tm.nelem(a[1]) == 0:
        return one(TRUE, s)
    return one(N('bool', tm.uf('cond', ('aeq', a[0], b[0]), ())), s)


@np_('numpy.isscalar')
def np_isscalar(I, args, kw, s, n):
    v = args[0]
    return one(C(isinstance(v, (N,)) or (isinstance(v, C) and v.v is not None)), s)


@np_('numpy.iscomplexobj')
def np_iscomplexobj(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if dt in ('num', 'unk', 'object'):
        return one(N('bool', tm.fresh('iscomplex')), s)
    return one(C(dt == 'complex'), s)


@np_('numpy.isrealobj')
def np_isrealobj(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if dt in ('num', 'unk', 'object'):
        return one(N('bool', tm.fresh('isreal')), s)
    return one(C(dt != 'complex'), s)


@np_('numpy.iscomplex', 'numpy.isreal')
def np_iscomplex(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if sh == ():
        if dt in ('float', 'int', 'bool'):
            return one(FALSE, s)
        return one(cbool(cmp_scalar('ne', eltwise1('imag', t), tm.ZERO)), s)
    if dt in ('float', 'int', 'bool'):
        return ret(I, tm.zeros(sh), 'bool', s)
    return ret(I, tm.uf('iscomplex', (t,), sh), 'bool', s)


@np_('numpy.isreal')
def np_isreal(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if dt in ('float', 'int', 'bool'):
        return one(TRUE, s) if sh == () else ret(I, tm.full(1, sh), 'bool', s)
    if sh == ():
        return one(cbool(cmp_scalar('eq', eltwise1('imag', t), tm.ZERO)), s)
    return ret(I, tm.uf('isreal', (t,), sh), 'bool', s)


@np_('numpy.real_if_close')
def np_real_if_close(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if dt in ('float', 'int', 'bool'):
        return one(args[0] if isinstance(args[0], A) else from_term(t, dt, s, sh), s)
    # either the real part or the complex array: treat the value as real part
    s2 = s.fork()
    c = tm.uf('cond', ('realclose', t), ())
    s.assume[c] = True
    s2.assume[c] = False
    return [(from_term(eltwise1('real', t), 'float', s, sh), s), (from_term(t, dt, s2, sh), s2)]


# ------------------------------------------------------------ linear algebra
@np_('numpy.dot')
def np_dot(I, args, kw, s, n):
    a, b = asarr(I, args[0], s) if not isinstance(args[0], (C, N)) else args[0], asarr(I, args[1], s) if not isinstance(args[1], (C, N)) else args[1]
    na, nb = num(a, s), num(b, s)
    if na[1] == () or nb[1] == ():
        return I.binop('mul', a, b, s, n)
    if na[1] is None or nb[1] is None:
        raise Unknown()
    out = []
    for r, t in I.binop('matmul', a, b, s, n):
        out.append((r if isinstance(r, Raise) else out_kw(I, r, kw, t, n), t))
    return out


@np_('numpy.vdot', 'numpy.inner')
def np_inner(I, args, kw, s, n):
    return np_dot(I, args, kw, s, n)


@np_('numpy.linalg.multi_dot')
def np_multi_dot(I, args, kw, s, n):
    it = _items(I, args[0], s)
    cur = [(it[0], s)]
    for x in it[1:]:
        nxt = []
        for v, t in cur:
            nxt += [(v, t)] if isinstance(v, Raise) else np_dot(I, [v, x], {}, t, n)
        cur = nxt
    return cur


@np_('numpy.outer')
def np_outer(I, args, kw, s, n):
    a, b = asarr(I, args[0], s), asarr(I, args[1], s)
    da, db = flatshape(a.shape)[0], flatshape(b.shape)[0]
    return I.binop('mul', _view_reshape(a, (da, 1)), _view_reshape(b, (1, db)), s, n)


@np_('numpy.kron')
def np_kron(I, args, kw, s, n):
    a, b = af(I, args[0], s), af(I, args[1], s)
    if a[1] is None or b[1] is None:
        raise Unknown()
    if a[1] == () or b[1] == ():
        return ret(I, tm.arith('mul', a[0], b[0]), jk(a[2], b[2]), s)
    nd = max(len(a[1]), len(b[1]))
    sa = (1,) * (nd - len(a[1])) + tuple(a[1])
    sb = (1,) * (nd - len(b[1])) + tuple(b[1])
    sh = tuple(tm.dim_of(tm.imul(tm.dim_term(x), tm.dim_term(y))) for x, y in zip(sa, sb))
    ta, tb = tm.reshape(a[0], sa), tm.reshape(b[0], sb)
    k = jk(a[2], b[2])
    if nd == 2 and tm.conc(sh) and tm.nelem(sh) <= 200:
        ea, eb = tm.entries(ta), tm.entries(tb)
        if tm.nelem(sh) == 0:
            return ret(I, tm.lit((), sh), k, s)
        ent = []
        for i in range(sa[0]):
            for p in range(sb[0]):
                for j in range(sa[1]):
                    for q in range(sb[1]):
                        ent.append(tm.arith('mul', ea[i * sa[1] + j], eb[p * sb[1] + q]))
        return ret(I, tm.lit(ent, sh), k, s)
    return ret(I, tm.uf('kron', (ta, tb), sh), k, s)


@np_('numpy.einsum')
def np_einsum(I, args, kw, s, n):
    if not isinstance(args[0], C):
        raise Unknown()
    spec = args[0].v.replace(' ', '')
    ops = [af(I, a, s) for a in args[1:]]
    if '.' in spec:
        raise Unknown()
    ins, _, outp = spec.partition('->')
    ins = ins.split(',')
    if '->' not in spec:
        cnt = {}
        for x in ''.join(ins):
            cnt[x] = cnt.get(x, 0) + 1
        outp = ''.join(sorted(x for x in cnt if cnt[x] == 1))
        spec = ','.join(ins) + '->' + outp
    dims = {}
    if len(ins) != len(ops):
        raise NotNum('ValueError', 'einsum operand count')
    for i, o in zip(ins, ops):
        if o[1] is None:
            raise Unknown()
        if len(i) != len(o[1]):
            raise NotNum('ValueError', 'einstein sum subscripts string contains too many/few subscripts for operand')
        for c, d in zip(i, o[1]):
            if c in dims and isinstance(dims[c], int) and isinstance(d, int) and dims[c] != d and 1 not in (d, dims[c]):
                raise NotNum('ValueError', 'operands could not be broadcast together (einsum)')
            if c not in dims or dims[c] == 1:
                dims[c] = d
    sh = tuple(dims[c] for c in outp)
    k = ops[0][2]
    for o in ops[1:]:
        k = jk(k, o[2])
    return ret(I, tm.uf('einsum', (spec,) + tuple(o[0] for o in ops), sh), k, s, n, sh, kw)


@np_('numpy.tensordot')
def np_tensordot(I, args, kw, s, n):
    raise Unknown()


@np_('numpy.vectorize', 'numpy.frompyfunc')
def np_vectorize(I, args, kw, s, n):
    return one(XO('npvectorize'), s)


# -------------------------------------------------------------- polynomials
@np_('numpy.convolve')
def np_convolve(I, args, kw, s, n):
    a, b = af(I, args[0], s), af(I, args[1], s)
    mode = arg(args, kw, 2, 'mode', C('full'))
    ps = []
    for t, sh, dt in (a, b):
        if sh is None:
            raise Unknown()
        if sh == ():
            t, sh = tm.reshape(t, (1,)), (1,)
        if len(sh) > 1:
            raise NotNum('ValueError', 'object too deep for desired array')
        if sh[0] == 0:
            raise NotNum('ValueError', 'a cannot be empty')
        ps.append((t, sh))
    k = jk(a[2], b[2])
    (ta, sa), (tb, sb) = ps
    if isinstance(mode, C) and mode.v != 'full':
        return ret(I, leafarr('conv', (tm.dimvar('conv'),), ta, tb), k, s)
    if tm.conc(sa) and tm.conc(sb) and tm.entrywise(ta) and tm.entrywise(tb) and sa[0] * sb[0] <= 64:
        ea, eb = tm.entries(ta), tm.entries(tb)
        out = [tm.ZERO] * (len(ea) + len(eb) - 1)
        for i, x in enumerate(ea):
            for j, y in enumerate(eb):
                out[i + j] = tm.arith('add', out[i + j], tm.arith('mul', x, y))
        return ret(I, tm.lit(out, (len(out),)), k, s)
    d = tm.dim_of(tm.iadd(tm.iadd(tm.dim_term(sa[0]), tm.dim_term(sb[0])), tm.ONE, -1))
    return ret(I, tm.uf('conv', (ta, tb), (d,)), k, s)


@np_('numpy.polymul')
def np_polymul(I, args, kw, s, n):
    return np_convolve(I, args, kw, s, n)


@np_('numpy.polyadd', 'numpy.polysub')
def np_polyadd(I, args, kw, s, n):
    return polyaddsub(I, args, s, n, 'add')


@np_('numpy.polysub')
def np_polysub(I, args, kw, s, n):
    return polyaddsub(I, args, s, n, 'sub')


def polyaddsub(I, args, s, n, op):
    a, b = af(I, args[0], s), af(I, args[1], s)
    if not (tm.conc(a[1]) and tm.conc(b[1])):
        raise Unknown()
    ea, eb = list(tm.entries(a[0])), list(tm.entries(b[0]))
    m = max(len(ea), len(eb))
    ea, eb = [tm.ZERO] * (m - len(ea)) + ea, [tm.ZERO] * (m - len(eb)) + eb
    return ret(I, tm.lit([tm.arith(op, x, y) for x, y in zip(ea, eb)], (m,)), jk(a[2], b[2]), s)


@np_('numpy.polyval')
def np_polyval(I, args, kw, s, n):
    p, x = af(I, args[0], s), af(I, args[1], s)
    if p[1] is None or x[1] is None:
        raise Unknown()
    k = jk(p[2], x[2])
    if tm.conc(p[1]) and len(p[1]) == 1 and tm.entrywise(p[0]) and (tm.entrywise(x[0])):
        es = tm.entries(p[0]) if p[1][0] else []

        def horner(z):
            r = tm.ZERO
            for e in es:
                r = tm.arith('add', tm.arith('mul', r, z), e)
            return r
        if x[1] == ():
            return ret(I, horner(x[0]), k, s)
        return ret(I, tm.lit([horner(z) for z in tm.entries(x[0])], x[1]), k, s)
    if len(p[1]) == 1:
        return ret(I, tm.uf('polyval', (p[0], x[0]), x[1]), k, s)
    # 2-D p: iterates over rows
    sh = tm.bshape(p[1][1:], x[1])
    if tm.conc(p[1]) and tm.conc(sh):
        r = tm.zeros(sh)
        for i in range(p[1][0]):
            r = tm.arith('add', tm.arith('mul', r, x[0]), tm.getitem(p[0], (('i', i),)))
        return ret(I, r, k, s, n, sh)
    return ret(I, leafarr('polyval2', sh, p[0], x[0]), k, s)


@np_('numpy.polyder', 'numpy.polyint', 'numpy.polyfit')
def np_polyder(I, args, kw, s, n):
    raise Unknown()


@np_('numpy.polydiv')
def np_polydiv(I, args, kw, s, n):
    a, b = af(I, args[0], s), af(I, args[1], s)
    if tm.conc(a[1]) and tm.conc(b[1]) and len(a[1]) == 1 == len(b[1]):
        na, nb = a[1][0], b[1][0]
        if na < nb:
            return one(Tu([s.new_arr(tm.lit([tm.ZERO], (1,)), 'float'), s.new_arr(a[0], 'float')]), s)
        q = s.new_arr(tm.uf('deconv_q', (a[0], b[0]), (na - nb + 1,)), 'float')
        return one(Tu([q, s.new_arr(leafarr('rem', (tm.dimvar('rem'),), a[0], b[0]), 'float')]), s)
    raise Unknown()


@np_('numpy.roots')
def np_roots(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if sh is None:
        raise Unknown()
    if sh == ():
        return ret(I, tm.lit((), (0,)), 'float', s)
    if len(sh) != 1:
        raise NotNum('ValueError', 'Input must be a rank-1 array.')
    if tm.conc(sh):
        es = list(tm.entries(t)) if sh[0] else []
        while es and is_null(es[0]):
            es.pop(0)
        if len(es) <= 1:
            return ret(I, tm.lit((), (0,)), 'float', s)
        tt = tm.lit(es, (len(es),))
        for cs, zs in I.factors.get('roots', ()):
            # roots fixed in advance for a monic polynomial
            if len(cs) == len(es) and all(tm.same(tm.arith('div', e, es[0]), q) is True for e, q in zip(es, cs)):
                return ret(I, tm.lit(zs, (len(zs),)), 'complex' if any(isinstance(tm.constval(z), complex) for z in zs) else 'float', s)
        return ret(I, tm.uf('roots', (tt,), (len(es) - 1,)), 'complex', s)
    d = tm.dim_of(tm.iadd(tm.dim_term(sh[0]), tm.ONE, -1))
    return ret(I, tm.uf('roots', (t,), (d,)), 'complex', s)


def is_null(e):
    """entry known to vanish (identically)"""
    if tm.is_zero(e):
        return True
    if e.op in ('const', 'leaf'):
        return False
    if tm.sign(e) in ('+', '-', '!=0'):
        return False
    if e.size > 400:
        return False
    return tm.same(e, tm.ZERO) is True


@np_('numpy.poly')
def np_poly(I, args, kw, s, n):
    t, sh, dt = af(I, args[0], s)
    if sh is None:
        raise Unknown()
    if len(sh) == 2:
        if tm.conc(sh) and sh[0] != sh[1]:
            raise NotNum('ValueError', 'input must be 1d or non-empty square 2d array.')
        if sh[0] == 0:
            raise NotNum('ValueError', 'input must be 1d or non-empty square 2d array.')
        d = tm.dim_of(tm.iadd(tm.dim_term(sh[0]), tm.ONE))
        return ret(I, tm.uf('charpoly', (t,), (d,)), dt if dt != 'int' else 'float', s)
    if sh == () or (tm.conc(sh) and sh[0] == 0):
        return one(N('float', tm.ONE), s) if sh != () else ret(I, tm.lit([tm.ONE, tm.neg(t)], (2,)), dt, s)
    if tm.conc(sh) and t.op == 'lit':
        out = [tm.ONE]
        vals = [tm.constval(z) for z in t.args]
        if dt in ('complex', 'num') and None not in vals and sorted(((z.real, z.imag) for z in vals)) == sorted((z.real, -z.imag) for z in vals):
            # closed under conjugation: numpy drops the imaginary parts
            cs = [1]
            for z in vals:
                cs = [x - z * y for x, y in zip(cs + [0], [0] + cs)]
            return ret(I, tm.lit([tm.const(z.real) for z in cs], (len(cs),)), 'float', s)
        for z in t.args:
            nxt = out + [tm.ZERO]
            for i in range(len(out)):
                nxt[i + 1] = tm.arith('sub', nxt[i + 1], tm.arith('mul', z, out[i]))
            out = nxt
        return ret(I, tm.lit(out, (len(out),)), dt if dt != 'complex' else 'num', s)
    if t.op == 'uf' and t.args[0] in ('eigvals', 'roots') and tm.conc(sh):
        src = t.args[1]
        if t.args[0] == 'eigvals':
            return ret(I, tm.uf('charpoly', (src,), (sh[0] + 1,)), 'float', s)
        es = tm.entries(src)
        return ret(I, tm.lit([tm.arith('div', e, es[0]) for e in es], (len(es),)), 'float', s)
    d = tm.dim_of(tm.iadd(tm.dim_term(sh[0]), tm.ONE))
    return ret(I, tm.uf('poly', (t,), (d,)), 'float', s)


@np_('numpy.trim_zeros')
def np_trim_zeros(I, args, kw, s, n):
    trim = arg(args, kw, 1, 'trim', C('fb'))
    v = args[0]
    t, sh, dt = af(I, v, s)
    if sh is None or not isinstance(trim, C):
        raise Unknown()
    if len(sh) != 1:
        if tm.conc(sh) and len(sh) == 2 and sh[1] != 1 and sh[0] > 0:
            raise NotNum('ValueError', 'The truth value of an array with more than one element is ambiguous')
        if sh == ():
            raise NotNum('TypeError', 'len() of unsized object')
        raise Unknown()
    if not tm.conc(sh):
        return ret(I, leafarr('trim', (tm.dimvar('trim', 0),), t), dt, s)
    es = list(tm.entries(t)) if sh[0] else []
    a, b = 0, len(es)
    tr = trim.v.lower()
    if 'f' in tr:
        while a < b and is_null(es[a]):
            a += 1
    if 'b' in tr:
        while b > a and is_null(es[b - 1]):
            b -= 1
    if isinstance(v, A):
        return ext.getitem(I, v, SL(C(a), C(b), NONE), s, n)
    if isinstance(v, Tu):
        return one(Tu(v.items[a:b]), s)
    it = seqitems(v, s)
    return one(s.new_list(it[a:b]), s)


# ------------------------------------------------------------- array methods
@meth('tolist')
def m_tolist(I, a, args, kw, s, n):
    if isinstance(a, N):
        return one(N(a.kind, a.term), s)
    if a.shape == ():
        return one(N(a.dtype if a.dtype in ORDER else 'num', aterm(a, s)), s)
    if a.shape is None:
        raise Unknown()
    t = aterm(a, s)

    def rec(tt, sh):
        if sh == ():
            if a.dtype in ORDER:
                if tt.op == 'const' and a.dtype == 'int':
                    return C(int(tt.args[0]))
                if tt.op == 'const' and a.dtype == 'bool':
                    return C(bool(tt.args[0]))
                return N(a.dtype, tt)
            return N('num', tt)
        if isinstance(sh[0], int):
            return s.new_list([rec(tm.getitem(tt, (('i', i),)) if tm.conc(sh) else tm.uf('getitem', (tt, repr(i)), sh[1:]), sh[1:])
                               for i in range(sh[0])])
        return s.unk_list(rec(tm.uf('getitem', (tt, 'it%d' % new_id()), sh[1:]), sh[1:]), tm.dim_term(sh[0]))
    return one(rec(t, a.shape), s)


@meth('astype')
def m_astype(I, a, args, kw, s, n):
    dt = dtype_of(arg(args, kw, 0, 'dtype')) or 'float'
    t, sh, k = num(a, s)
    if dt == 'int' and k in ('float', 'num'):
        t = ext.trunc(t)
    if dt in ('float', 'int') and k == 'complex':
        t = eltwise1('real', t)
    if dt == 'bool' and k != 'bool':
        t = ext.acmp('ne', t, tm.ZERO, sh)
    if truthy(kw.get('copy', TRUE)) is False and dt == k:
        return one(a, s)
    return one(from_term(t, dt, s, sh), s)


@meth('copy', '__copy__', '__deepcopy__')
def m_copy(I, a, args, kw, s, n):
    t, sh, k = num(a, s)
    return one(s.new_arr(t, k, sh) if isinstance(a, A) else a, s)


@meth('item')
def m_item(I, a, args, kw, s, n):
    t, sh, k = num(a, s)
    if not args:
        if tm.conc(sh):
            if tm.nelem(sh) != 1:
                raise NotNum('ValueError', 'can only convert an array of size 1 to a Python scalar')
            return one(N(k if k in ORDER else 'num', tm.entries(t)[0]), s)
        return one(N('num', tm.fresh('item')), s)
    if len(args) == 1 and not isinstance(args[0], Tu):
        r = ext.getitem(I, _view_reshape(a, flatshape(sh)), args[0], s, n)
    else:
        r = ext.getitem(I, a, Tu(args) if len(args) > 1 else args[0], s, n)
    return [(N(v.kind, v.term) if isinstance(v, N) else v, t) for v, t in r]


@meth('fill')
def m_fill(I, a, args, kw, s, n):
    return [(r if isinstance(r, Raise) else NONE, t) for r, t in ext.setitem(I, a, C(Ellipsis), args[0], s, n)]


@meth('sort')
def m_sort(I, a, args, kw, s, n):
    r = np_sort(I, [a], {}, s, n)
    awrite(I, a, aterm(r[0][0], s), s, n)
    return one(NONE, s)


@meth('itemset', 'put', 'resize', 'partition', 'byteswap')
def m_put(I, a, args, kw, s, n):
    awrite(I, a, leafarr('put', a.shape), s, n)
    return one(NONE, s)


@meth('setflags')
def m_setflags(I, a, args, kw, s, n):
    return one(NONE, s)


@meth('transpose')
def m_transpose(I, a, args, kw, s, n):
    return np_transpose(I, [a] + args, kw, s, n)


@meth('view')
def m_view(I, a, args, kw, s, n):
    return one(a, s)


@meth('dot')
def m_dot(I, a, args, kw, s, n):
    return np_dot(I, [a] + args, kw, s, n)


@meth('__len__')
def m_len(I, a, args, kw, s, n):
    return ext.REG['builtins.len'](I, [a], {}, s, n)


for _nm in ('float64', 'float_', 'float32', 'double'):
    def _f64(I, args, kw, s, n):
        r = ext.REG['builtins.float'](I, args, kw, s, n)
        return [(N('float', num(v, t)[0], True) if not isinstance(v, Raise) and num(v, t) else v, t) for v, t in r]
    ext.REG['numpy.' + _nm] = _f64
for _nm in ('complex128', 'complex_', 'cdouble'):
    ext.REG['numpy.' + _nm] = lambda I, args, kw, s, n: ext.REG['builtins.complex'](I, args, kw, s, n)
ext.REG['numpy.bool_'] = lambda I, args, kw, s, n: ext.REG['builtins.bool'](I, args, kw, s, n)
ext.REG['numpy.int64'] = ext.REG['builtins.int']


@np_('numpy.dtype', 'numpy.result_type', 'numpy.promote_types', 'numpy.common_type')
def np_dtype(I, args, kw, s, n):
    ks = []
    for a in args:
        k = dtype_of(a)
        if k == 'unk':
            r = num(a, s)
            k = r[2] if r else 'unk'
        ks.append(k)
    k = ks[0] if ks else 'unk'
    for x in ks[1:]:
        k = jk(k, x)
    return one(XO('dtype:%s' % k), s)


@np_('numpy.issubdtype')
def np_issubdtype(I, args, kw, s, n):
    a, b = dtype_of(args[0]), (args[1].path.split('.')[-1] if isinstance(args[1], X) else dtype_of(args[1]))
    if a in ORDER:
        m = {'complexfloating': a == 'complex', 'floating': a == 'float', 'integer': a == 'int', 'number': a != 'bool', 'inexact': a in ('float', 'complex')}
        if b in m:
            return one(C(m[b]), s)
        return one(C(DTm(b) == a), s)
    return one(N('bool', tm.fresh('issub')), s)


def DTm(b):
    return ext.DT.get(b)


@np_('numpy.finfo', 'numpy.iinfo')
def np_finfo(I, args, kw, s, n):
    return one(XO('finfo'), s)


@np_('numpy.may_share_memory', 'numpy.shares_memory')
def np_share(I, args, kw, s, n):
    return one(N('bool', tm.fresh('share')), s)


@np_('numpy.nditer', 'numpy.ndenumerate')
def np_ndenum(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    if tm.conc(a.shape):
        t = aterm(a, s)
        rows = []
        for ii, e in zip(tm._indices(a.shape), tm.entries(t)):
            rows.append(Tu([Tu([C(i) for i in ii]), N(a.dtype if a.dtype in ORDER else 'num', e, True)]))
        return one(Tu(rows), s)
    raise Unknown()


@np_('numpy.ndindex')
def np_ndindex(I, args, kw, s, n):
    sh = toshape(args[0], s) if len(args) == 1 else tuple(todim(a) for a in args)
    if tm.conc(sh):
        return one(Tu([Tu([C(i) for i in ii]) for ii in tm._indices(sh)]), s)
    return one(s.unk_list(Tu([N('int', tm.dimvar('i')) for _ in sh])), s)


@np_('numpy.split', 'numpy.array_split', 'numpy.hsplit', 'numpy.vsplit')
def np_split(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    ax = cint(arg(args, kw, 2, 'axis', C(0)))
    return split_(I, a, args[1], ax, s, n)


def split_(I, a, where, ax, s, n):
    if a.shape is None or not isinstance(a.shape[ax], int):
        raise Unknown()
    d = a.shape[ax]
    k = cint(where)
    if k is not None:
        if d % k:
            raise NotNum('ValueError', 'array split does not result in an equal division')
        pts = [i * (d // k) for i in range(1, k)]
    else:
        pts = []
        t, sh, dt = af(I, where, s)
        for e in tm.entries(t) if tm.nelem(sh) else []:
            if e.op != 'const':
                raise Unknown()
            pts.append(e.args[0])
    out, lo = [], 0
    for p in pts + [d]:
        key = Tu([SL(NONE, NONE, NONE)] * ax + [SL(C(lo), C(p), NONE)])
        out.append(ext.getitem(I, a, key, s, n)[0][0])
        lo = p
    return one(s.new_list(out), s)


@np_('numpy.vsplit')
def np_vsplit(I, args, kw, s, n):
    return split_(I, asarr(I, args[0], s), args[1], 0, s, n)


@np_('numpy.hsplit')
def np_hsplit(I, args, kw, s, n):
    a = asarr(I, args[0], s)
    return split_(I, a, args[1], 0 if len(a.shape) == 1 else 1, s, n)
