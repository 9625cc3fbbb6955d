"""Value-number terms.

Every numeric value the analysis tracks carries a hash-consed term (a value
number).  Two values with the same term are equal in every execution.  Terms
are compared modulo matrix algebra by random interpretation over a prime
field: the terms (never the analysed code) are given a pseudo random model of
their leaves and two terms that denote different rational functions differ in
that model except with probability about degree/PRIME.
"""
import hashlib
import itertools
from fractions import Fraction

PRIME = 2 ** 61 - 1            # prime, = 3 mod 4: -1 is no square, GF(p)[i] is a field


class Undecided(Exception):
    """A term has no usable algebraic interpretation."""


class T:
    __slots__ = ('op', 'args', 'shape', 'id', 'size')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, args, shape):
    key = (op, args, shape)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.shape = op, args, shape
        _cnt[0] += 1
        t.id = _cnt[0]
        s = 1
        for a in args:
            if isinstance(a, T):
                s += a.size
        t.size = s
        _tab[key] = t
    return t


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'leaf':
        return str(t.args[0])
    if t.op == 'const':
        return repr(t.args[0])
    if t.op == 'uf':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d + 1) for a in t.args[1:]) if d < 4 else '..')
    if d > 4:
        return '%s(..)' % t.op
    return '%s(%s)' % (t.op, ', '.join(show(a, d + 1) for a in t.args))


# ---------------------------------------------------------------- leaves
def const(v):
    # 1, 1.0 and True must be the same number but keep python equality keys
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and v == v and v not in (float('inf'), float('-inf')) and v == int(v) and abs(v) < 1e15:
        v = int(v)
    if isinstance(v, complex) and v.imag == 0:
        return const(v.real)
    if isinstance(v, float) and v != v:
        return mk('leaf', ('nan', None), ())
    return mk('const', (v, type(v).__name__), ())


ZERO = const(0)
ONE = const(1)


def leaf(name, shape=(), facts=()):
    """facts: subset of {'pos','nonzero','lead'}"""
    return mk('leaf', (name, tuple(sorted(facts))), tuple(shape))


_fresh = [0]


def fresh(prefix, shape=()):
    _fresh[0] += 1
    return leaf('%s#%d' % (prefix, _fresh[0]), shape)


def isconst(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def conc(shape):
    return shape is not None and all(isinstance(d, int) for d in shape)


def nelem(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def lit(entries, shape):
    entries = tuple(entries)
    assert len(entries) == nelem(shape), (entries, shape)
    if shape == ():
        return entries[0]
    return mk('lit', entries, tuple(shape))


def full(c, shape):
    if not isinstance(c, T):
        c = const(c)
    if conc(shape) and nelem(shape) <= 400:
        return lit((c,) * nelem(shape), shape)
    return mk('full', (c,), tuple(shape))


def zeros(shape):
    return full(0, shape)


def eye(n, m=None, k=0):
    m = n if m is None else m
    if isinstance(n, int) and isinstance(m, int):
        return lit([ONE if j - i == k else ZERO for i in range(n) for j in range(m)], (n, m))
    return mk('eye', (n, m, k), (n, m))


def is_zero(t):
    if t.op == 'const':
        return t.args[0] == 0
    if t.op == 'lit':
        return all(is_zero(e) for e in t.args)
    if t.op == 'full':
        return is_zero(t.args[0])
    return False


# ------------------------------------------------------- int linear forms
def _lin(t):
    """integer linear form -> ({term: coef}, const) or None"""
    if t.op == 'const' and isinstance(t.args[0], int):
        return {}, t.args[0]
    if t.op == 'lin':
        return dict(t.args[1]), t.args[0]
    return {t: 1}, 0


def _mklin(coefs, c):
    coefs = {k: v for k, v in coefs.items() if v}
    if not coefs:
        return const(c)
    if c == 0 and len(coefs) == 1:
        (k, v), = coefs.items()
        if v == 1:
            return k
    return mk('lin', (c, tuple(sorted(coefs.items(), key=lambda kv: kv[0].id))), ())


def iadd(a, b, sb=1):
    ca, ka = _lin(a)
    cb, kb = _lin(b)
    for k, v in cb.items():
        ca[k] = ca.get(k, 0) + sb * v
    return _mklin(ca, ka + sb * kb)


def imul(a, b):
    ca, ka = _lin(a)
    cb, kb = _lin(b)
    if not ca:
        return _mklin({k: v * ka for k, v in cb.items()}, ka * kb)
    if not cb:
        return _mklin({k: v * kb for k, v in ca.items()}, ka * kb)
    return mk('uf', ('imul',) + tuple(sorted((a, b), key=lambda t: t.id)), ())


BOUNDS = {}      # int leaf -> (lo, hi)


def dimvar(prefix, lo=0, hi=None):
    t = fresh(prefix, ())
    BOUNDS[t] = (lo, hi)
    return t


def ibounds(t):
    """interval of an integer term"""
    c, k = _lin(t)
    lo = hi = k
    for x, v in c.items():
        xl, xh = BOUNDS.get(x, (None, None))
        if v < 0:
            xl, xh = xh, xl
        lo = None if lo is None or xl is None else lo + v * xl
        hi = None if hi is None or xh is None else hi + v * xh
    return lo, hi


def dim_term(d):
    return const(d) if isinstance(d, int) else d


def dim_of(t):
    """term -> dim (int when constant)"""
    if t.op == 'const' and isinstance(t.args[0], int):
        return t.args[0]
    return t


def constval(t):
    """python number of a closed arithmetic term, else None"""
    if t.op == 'const':
        return t.args[0]
    if t.op in ('add', 'sub', 'mul', 'div', 'neg') and t.shape == () and t.size < 30:
        v = [constval(x) for x in t.args]
        if any(x is None for x in v):
            return None
        try:
            return {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
                    'div': lambda a, b: a / b, 'neg': lambda a: -a}[t.op](*v)
        except Exception:
            return None
    return None


# ------------------------------------------------------------ sign facts
def sign(t):
    """'+', '-', '0', '>=0', '!=0' or None for scalar real terms"""
    if t.op == 'const':
        v = t.args[0]
        if isinstance(v, complex):
            return '!=0' if v else '0'
        return '+' if v > 0 else '-' if v < 0 else '0'
    if t.op == 'leaf':
        f = t.args[1] or ()
        if 'pos' in f:
            return '+'
        if 'nonzero' in f:
            return '!=0'
        b = BOUNDS.get(t)
        if b:
            if b[0] is not None and b[0] > 0:
                return '+'
            if b[0] is not None and b[0] >= 0:
                return '>=0'
        return None
    if t.op == 'lin':
        lo, hi = ibounds(t)
        if lo is not None and lo > 0:
            return '+'
        if hi is not None and hi < 0:
            return '-'
        if lo is not None and lo >= 0:
            return '>=0'
        return None
    if t.op in ('add', 'sub', 'mul', 'div', 'neg'):
        v = constval(t)
        if v is not None and not isinstance(v, complex):
            return '+' if v > 0 else '-' if v < 0 else '0'
    if t.op in ('mul', 'div'):
        a, b = (sign(x) for x in t.args)
        if a == '0':
            return '0'
        if a in ('+', '-') and b in ('+', '-'):
            return '+' if a == b else '-'
        if a in ('+', '-', '!=0') and b in ('+', '-', '!=0'):
            return '!=0'
        return None
    if t.op == 'add':
        a, b = (sign(x) for x in t.args)
        if a == b and a in ('+', '-'):
            return a
        if {a, b} == {'+', '>=0'}:
            return '+'
        return None
    if t.op == 'neg':
        a = sign(t.args[0])
        return {'+': '-', '-': '+', '0': '0', '!=0': '!=0'}.get(a)
    if t.op == 'pow':
        a = sign(t.args[0])
        if a == '+':
            return '+'
        return None
    if t.op == 'uf':
        if t.args[0] == 'sqrt' and sign(t.args[1]) == '+':
            return '+'
        if t.args[0] in ('abs', 'exp'):
            if t.args[0] == 'exp':
                return '+'
            return '+' if sign(t.args[1]) in ('+', '-', '!=0') else '>=0'
        if t.args[0] == 'spacing':
            return '+'
    return None


# ----------------------------------------------------- broadcasting shapes
class ShapeError(Exception):
    pass


def bshape(a, b):
    """broadcast two shapes; raises ShapeError when definitely impossible"""
    if a is None or b is None:
        return None
    n = max(len(a), len(b))
    aa = (1,) * (n - len(a)) + tuple(a)
    bb = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(aa, bb):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif x == y:
            out.append(x)
        elif isinstance(x, int) and isinstance(y, int):
            raise ShapeError('operands could not be broadcast together with shapes %s %s' % (a, b))
        elif isinstance(x, int):
            out.append(x)
        elif isinstance(y, int):
            out.append(y)
        else:
            out.append(x)
    return tuple(out)


# ------------------------------------------------------------ constructors
_FOLD = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}


def arith(op, a, b, isint=False):
    """elementwise add/sub/mul/div/pow/floordiv/mod on terms (shape by caller)"""
    sh = bshape(a.shape, b.shape)
    if sh == ():
        if isint and op in ('add', 'sub', 'mul'):
            if op == 'mul':
                return imul(a, b)
            return iadd(a, b, 1 if op == 'add' else -1)
        if a.op == 'const' and b.op == 'const':
            try:
                x, y = a.args[0], b.args[0]
                if op in _FOLD:
                    return const(_FOLD[op](x, y))
                if op == 'div' and y != 0:
                    q = x / y
                    if q * y == x and (isinstance(q, complex) or q * 64 == int(q * 64)):
                        return const(q)
                if op == 'pow':
                    return const(x ** y)
                if op == 'floordiv' and y != 0:
                    return const(x // y)
                if op == 'mod' and y != 0:
                    return const(x % y)
            except Exception:
                pass
    # light normalisation: neutral elements
    if op == 'mul':
        if a is ONE and b.shape == sh:
            return b
        if b is ONE and a.shape == sh:
            return a
        if sh is not None and (is_zero(a) or is_zero(b)) and conc(sh):
            return zeros(sh)
        if a.shape == b.shape and a.id > b.id:
            a, b = b, a
    elif op == 'add':
        if is_zero(a) and b.shape == sh:
            return b
        if is_zero(b) and a.shape == sh:
            return a
        if a.shape == b.shape and a.id > b.id:
            a, b = b, a
    elif op == 'sub':
        if is_zero(b) and a.shape == sh:
            return a
    elif op == 'div':
        if b is ONE:
            return a
    elif op == 'pow':
        if b is ONE:
            return a
    # push through literals elementwise so that entries stay visible
    if sh is not None and sh != () and conc(sh) and nelem(sh) <= 64 and op in ('add', 'sub', 'mul', 'div'):
        if entrywise(a) and entrywise(b):
            ea, eb = bentries(a, sh), bentries(b, sh)
            return lit([arith(op, x, y) for x, y in zip(ea, eb)], sh)
    return mk(op, (a, b), sh)


def entrywise(t):
    return t.shape == () or t.op == 'lit'


def bentries(t, sh):
    """entries of t broadcast to sh"""
    if t.shape == ():
        return [t] * nelem(sh)
    ent = t.args
    ts = (1,) * (len(sh) - len(t.shape)) + t.shape
    if ts == tuple(sh):
        return ent
    out = []
    strides = _strides(ts)
    for idx in _indices(sh):
        k = 0
        for i, d, s in zip(idx, ts, strides):
            k += (0 if d == 1 else i) * s
        out.append(ent[k])
    return out


def _strides(sh):
    s = [1] * len(sh)
    for i in range(len(sh) - 2, -1, -1):
        s[i] = s[i + 1] * sh[i + 1]
    return s


def _indices(sh):
    if not sh:
        yield ()
        return
    n = nelem(sh)
    st = _strides(sh)
    for k in range(n):
        yield tuple((k // s) % d for s, d in zip(st, sh))


def neg(a):
    if a.op == 'const':
        return const(-a.args[0])
    if a.op == 'lit':
        return lit([neg(x) for x in a.args], a.shape)
    if a.op == 'neg':
        return a.args[0]
    if a.op == 'lin':
        return iadd(ZERO, a, -1)
    return mk('neg', (a,), a.shape)


def matmul_shape(a, b):
    if a is None or b is None:
        return None
    if len(a) == 0 or len(b) == 0:
        raise ShapeError('matmul: input operand does not have enough dimensions')
    x = a[-1]
    y = b[-2] if len(b) > 1 else b[0]
    if isinstance(x, int) and isinstance(y, int) and x != y:
        raise ShapeError('matmul: mismatch in core dimension %s %s' % (a, b))
    if len(a) > 2 or len(b) > 2:
        lead = bshape(a[:-2], b[:-2])
        return (lead or ()) + tuple(a[-2:-1]) + ((b[-1],) if len(b) > 1 else ())
    return tuple(a[:-1]) + ((b[-1],) if len(b) > 1 else ())


def matmul(a, b):
    sh = matmul_shape(a.shape, b.shape)
    if conc(sh) and sh is not None:
        if is_zero(a) or is_zero(b):
            return zeros(sh)
        if _is_eye(a) and b.shape == sh:
            return b
        if _is_eye(b) and a.shape == sh:
            return a
    return mk('matmul', (a, b), sh)


def _is_eye(t):
    if t.op != 'lit' or len(t.shape) != 2 or t.shape[0] != t.shape[1]:
        return False
    n = t.shape[0]
    for i in range(n):
        for j in range(n):
            e = t.args[i * n + j]
            if e is not (ONE if i == j else ZERO):
                return False
    return True


def transpose(a, axes=None):
    if a.shape is None:
        return mk('T', (a,), None)
    if len(a.shape) < 2:
        return a
    if axes is None:
        axes = tuple(reversed(range(len(a.shape))))
    if axes == tuple(range(len(a.shape))):
        return a
    sh = tuple(a.shape[i] for i in axes)
    if a.op == 'lit':
        st = _strides(a.shape)
        ent = []
        for idx in _indices(sh):
            k = 0
            for ax, i in zip(axes, idx):
                k += st[ax] * i
            ent.append(a.args[k])
        return lit(ent, sh)
    if a.op == 'T' and len(a.shape) == 2:
        return a.args[0]
    return mk('T', (a, axes), sh)


def reshape(a, shape, order='C'):
    shape = tuple(shape)
    if a.shape == shape and order == 'C':
        return a
    if order == 'F':
        return reshape(transpose(a), tuple(reversed(shape))) if a.shape is not None and len(shape) == 1 else \
            transpose(reshape(transpose(a), tuple(reversed(shape))))
    if a.op == 'lit' and conc(shape):
        return lit(a.args, shape)
    if a.op == 'full':
        return full(a.args[0], shape)
    if a.op == 'reshape':
        return reshape(a.args[0], shape)
    if a.shape == () and conc(shape) and nelem(shape) == 1:
        return lit([a], shape)
    if shape == () and conc(a.shape) and nelem(a.shape) == 1 and a.op != 'lit':
        return getflat(a, [0], ())
    return mk('reshape', (a,), shape)


# ------------------------------------------------------------- indexing
def norm_slice(s, d):
    a, b, c = s
    return range(d)[slice(a, b, c)]


def index_map(shape, idx):
    """numpy indexing for concrete shapes: idx is a tuple of elements
    ('i',k) ('s',a,b,c) ('n',) ('e',) ('a',shape,values).
    Returns (result_shape, flat source positions) or raises IndexError."""
    idx = list(idx)
    nreal = sum(1 for e in idx if e[0] in 'isa')
    if sum(1 for e in idx if e[0] == 'e') == 0:
        idx.append(('e',))
    if nreal > len(shape):
        raise IndexError('too many indices for array')
    full_ = []
    for e in idx:
        if e[0] == 'e':
            full_ += [('s', None, None, None)] * (len(shape) - nreal)
        else:
            full_.append(e)
    strides = _strides(shape)
    adv = [e for e in full_ if e[0] == 'a']
    use_adv = bool(adv)
    # dims list : each either ('b', [offsets]) or ('adv', position)
    ax = 0
    out = []          # list of basic dims (list of offsets) in order or marker
    base = 0
    advs = []         # (shape, values(offset))
    advpos = []
    for pos, e in enumerate(full_):
        if e[0] == 'n':
            out.append(('b', [0]))
            continue
        d, s = shape[ax], strides[ax]
        ax += 1
        if e[0] == 's':
            out.append(('b', [k * s for k in norm_slice(e[1:], d)]))
        elif e[0] == 'i':
            k = e[1]
            if k < -d or k >= d:
                raise IndexError('index %d is out of bounds for axis with size %d' % (k, d))
            k = k % d
            if use_adv:
                advs.append(((), (k * s,)))
                advpos.append(pos)
                out.append(('adv',))
            else:
                base += k * s
        else:
            vals = []
            for k in e[2]:
                if k < -d or k >= d:
                    raise IndexError('index %d is out of bounds for axis with size %d' % (k, d))
                vals.append((k % d) * s)
            advs.append((e[1], tuple(vals)))
            advpos.append(pos)
            out.append(('adv',))
    if use_adv:
        ash = ()
        for sh, _ in advs:
            try:
                ash = bshape(ash, sh)
            except ShapeError:
                raise IndexError('shape mismatch: indexing arrays could not be broadcast together')
        aoff = [0] * nelem(ash)
        for sh, vals in advs:
            tsh = (1,) * (len(ash) - len(sh)) + tuple(sh)
            st = _strides(tsh)
            for q, ii in enumerate(_indices(ash)):
                k = 0
                for i, dd, ss in zip(ii, tsh, st):
                    k += (0 if dd == 1 else i) * ss
                aoff[q] += vals[k]
        contiguous = advpos == list(range(advpos[0], advpos[0] + len(advpos)))
        dims = []
        placed = False
        if not contiguous:
            dims.append((ash, aoff))
            placed = True
        for o in out:
            if o[0] == 'b':
                dims.append(((len(o[1]),), o[1]))
            elif not placed:
                dims.append((ash, aoff))
                placed = True
    else:
        dims = [((len(o[1]),), o[1]) for o in out]
    rshape = ()
    offs = [base]
    for sh, of in dims:
        rshape += tuple(sh)
        offs = [a + b for a in offs for b in of]
    return rshape, offs


def getitem(t, idx):
    """idx with concrete elements; t may have symbolic shape (then only a
    structural term is built; the caller supplies the shape by `getitem_sh`)."""
    rsh, offs = index_map(t.shape, idx)
    if t.op == 'lit':
        return lit([t.args[k] for k in offs], rsh)
    if t.op == 'full':
        return full(t.args[0], rsh)
    if t.op == 'const':
        return t
    n = nelem(t.shape)
    if offs == list(range(n)) and (rsh or not t.shape):
        return reshape(t, rsh)
    if t.op == 'gather':
        return mk('gather', (t.args[0], tuple(t.args[1][k] for k in offs)), rsh)
    if t.op == 'concat':
        r = _concat_pick(t, offs, rsh)
        if r is not None:
            return r
    if t.op == 'T' and rsh and nelem(rsh) > 0:
        src, axes = t.args
        st = _strides(src.shape)
        tstr = _strides(t.shape)
        off2 = []
        for k in offs:
            q = 0
            for ax_, s_, d_ in zip(axes, tstr, t.shape):
                q += ((k // s_) % d_) * st[ax_]
            off2.append(q)
        return mk('gather', (src, tuple(off2)), rsh) if not src.op == 'gather' else \
            mk('gather', (src.args[0], tuple(src.args[1][k] for k in off2)), rsh)
    if t.op == 'reshape':
        return getflat(t.args[0], offs, rsh)
    return mk('gather', (t, tuple(offs)), rsh)


def getflat(t, offs, rsh):
    if t.op == 'lit':
        return lit([t.args[k] for k in offs], rsh)
    if t.op == 'full':
        return full(t.args[0], rsh)
    if t.op == 'gather':
        return mk('gather', (t.args[0], tuple(t.args[1][k] for k in offs)), rsh)
    if t.op == 'reshape':
        return getflat(t.args[0], offs, rsh)
    if t.shape == ():
        return t if not rsh else reshape(t, rsh)
    if rsh and offs == list(range(nelem(t.shape))):
        return reshape(t, rsh)
    return mk('gather', (t, tuple(offs)), rsh)


def _concat_pick(t, offs, rsh):
    """a slice that falls into one piece of a concatenation"""
    axis = t.args[0]
    pieces = t.args[1:]
    if len(t.shape) != 2 or not all(conc(p.shape) for p in pieces):
        return None
    pos = 0
    owner = []
    for k, p in enumerate(pieces):
        for j in range(p.shape[axis]):
            owner.append((k, j))
    w = t.shape[1]
    sel = set()
    res = []
    for o in offs:
        r, c = divmod(o, w)
        k, j = owner[r if axis == 0 else c]
        sel.add(k)
        if len(sel) > 1:
            return None
        pw = pieces[k].shape[1]
        res.append((j * pw + c) if axis == 0 else (r * pw + j))
    if not sel:
        return None
    return getflat(pieces[sel.pop()], res, rsh)


def setitem(t, idx, v):
    """new term of t with the selected positions replaced by v (broadcast)"""
    rsh, offs = index_map(t.shape, idx)
    return setflat(t, offs, rsh, v)


def setflat(t, offs, rsh, v):
    vs = v.shape
    while vs is not None and len(vs) > len(rsh) and vs and vs[0] == 1:
        v = reshape(v, vs[1:])
        vs = v.shape
    if bshape(vs, rsh) != tuple(rsh):
        raise ShapeError('could not broadcast input array from shape %s into shape %s' % (vs, rsh))
    n = nelem(t.shape)
    if not offs:
        return t
    if sorted(offs) == list(range(n)) and offs == list(range(n)) and v.shape == tuple(rsh):
        return reshape(v, t.shape)
    if t.op in ('lit', 'full') or (t.op == 'uninit') or n <= 36:
        ent = list(entries(t))
        ve = list(bentries(v, rsh)) if entrywise(v) else \
            list(entries(v)) if v.shape == tuple(rsh) else \
            [getflat(v, [k], ()) for k in _bpos(v.shape, rsh)]
        for o, e in zip(offs, ve):
            ent[o] = e
        return lit(ent, t.shape)
    return mk('scatter', (t, tuple(offs), tuple(rsh), v), t.shape)


def _bpos(vs, rsh):
    ts = (1,) * (len(rsh) - len(vs)) + tuple(vs)
    st = _strides(ts)
    out = []
    for ii in _indices(rsh):
        k = 0
        for i, d, s in zip(ii, ts, st):
            k += (0 if d == 1 else i) * s
        out.append(k)
    return out


def entries(t):
    """scalar terms of every entry (row-major)"""
    if t.shape == ():
        return (t,)
    if t.op == 'lit':
        return t.args
    n = nelem(t.shape)
    if t.op == 'full':
        return (t.args[0],) * n
    if t.op in ('add', 'sub', 'mul', 'div', 'neg') and False:
        pass
    return tuple(getflat(t, [k], ()) for k in range(n))


def concat(pieces, axis, shape):
    pieces = list(pieces)
    if conc(shape):
        keep = [p for p in pieces if not (conc(p.shape) and p.shape[axis] == 0)]
        if len(keep) == 1 and keep[0].shape == tuple(shape):
            return keep[0]
        if keep:
            pieces = keep
        if all(p.op in ('lit', 'full', 'const') for p in pieces) and len(shape) <= 2:
            if len(shape) == 1:
                return lit(sum((list(entries(p)) for p in pieces), []), shape)
            if axis == 0:
                return lit(sum((list(entries(p)) for p in pieces), []), shape)
            ent = []
            for r in range(shape[0]):
                for p in pieces:
                    w = p.shape[1]
                    e = entries(p)
                    ent += list(e[r * w:(r + 1) * w])
            return lit(ent, shape)
    return mk('concat', (axis,) + tuple(pieces), tuple(shape))


def uf(name, args, shape=()):
    if name == 'thresh':
        a = args[0]
        if a.op == 'lit':
            return lit([uf('thresh', (e,), ()) for e in a.args], a.shape)
        if a.op in ('const', 'full') or (a.op == 'uf' and a.args[0] == 'thresh'):
            return a
    return mk('uf', (name,) + tuple(args), None if shape is None else tuple(shape))


def solve(a, b, shape):
    if _is_eye(a):
        return b
    return mk('solve', (a, b), tuple(shape))


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def leaves(t):
    return {x.args[0] for x in walk(t) if x.op == 'leaf'}


def subst_depends(t, name):
    return any(x.op == 'leaf' and x.args[0] == name for x in walk(t))


# ------------------------------------------------ random interpretation
def _h(*parts):
    s = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(s[:12], 'big') % PRIME


class Z:
    """element re + i*im of GF(PRIME)[i]"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __add__(self, o):
        return Z(self.re + o.re, self.im + o.im) if isinstance(o, Z) else Z(self.re + o, self.im)
    __radd__ = __add__

    def __sub__(self, o):
        return Z(self.re - o.re, self.im - o.im) if isinstance(o, Z) else Z(self.re - o, self.im)

    def __rsub__(self, o):
        return Z(o - self.re, -self.im)

    def __neg__(self):
        return Z(-self.re, -self.im)

    def __mul__(self, o):
        if isinstance(o, Z):
            return Z((self.re * o.re - self.im * o.im) % PRIME, (self.re * o.im + self.im * o.re) % PRIME)
        return Z(self.re * o, self.im * o)
    __rmul__ = __mul__

    def __mod__(self, p):
        re, im = self.re % p, self.im % p
        return Z(re, im) if im else re

    def __eq__(self, o):
        return isinstance(o, Z) and self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        return True

    def __repr__(self):
        return 'Z(%d,%d)' % (self.re, self.im)


def inv_mod(x):
    x = x % PRIME
    if isinstance(x, Z):
        n = pow(x.re * x.re + x.im * x.im, PRIME - 2, PRIME)
        return Z(x.re * n % PRIME, -x.im * n % PRIME)
    if x == 0:
        raise Undecided('division by zero in the model')
    return pow(x, PRIME - 2, PRIME)


def pow_mod(x, k):
    if isinstance(x, Z):
        r = 1
        for _ in range(k):
            r = r * x % PRIME
        return r
    return pow(x, k, PRIME)


def sqrt_mod(x):
    """principal square root: the root that is itself a square, so that
    sqrt(x)*sqrt(y) == sqrt(x*y)"""
    x = x % PRIME
    if isinstance(x, Z):
        return Z(_h('sqrtr', x.re, x.im), _h('sqrti', x.re, x.im))
    if x == 0:
        return 0
    r = pow(x, (PRIME + 1) // 4, PRIME)
    if r * r % PRIME != x:
        raise NonResidue()
    return r


class NonResidue(Exception):
    pass


def num_mod(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v % PRIME
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return _h('float', v)
        f = Fraction(v)
        g = f.limit_denominator(10 ** 9)
        if float(g) == v:
            f = g
        return f.numerator * inv_mod(f.denominator) % PRIME
    if isinstance(v, complex):
        return Z(num_mod(v.real), num_mod(v.imag)) % PRIME
    raise Undecided('constant %r' % (v,))


ENTRYWISE = {'abs', 'angle', 'log', 'log10', 'log2', 'exp', 'sin', 'cos', 'tan', 'arctan', 'sqrt', 'sign', 'ceil', 'floor'}


class Model:
    """A pseudo random model of the leaves.  `defs` gives chosen leaves a
    defining term (used for structured families, e.g. A := S R S^T) and
    `zero` forces leaves to zero (path assumptions)."""

    def __init__(self, seed=0, defs=None, ufs=None):
        self.seed = seed
        self.defs = defs or {}
        self.ufs = ufs or {}
        self.memo = {}

    # -- matrices are (shape, list)
    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._ev_iter(t)
        return r

    def _ev_iter(self, t):
        # explicit stack: terms can be deep
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            if x.op == 'leaf' and x.args[0] in self.defs:
                d = self.defs[x.args[0]]
                if isinstance(d, T):
                    if d.id not in self.memo:
                        stack.append(d)
                        continue
                    self.memo[x.id] = self.memo[d.id]
                else:
                    self.memo[x.id] = d
                stack.pop()
                continue
            todo = [a for a in x.args if isinstance(a, T) and a.id not in self.memo]
            if todo and x.op == 'uf' and self.ufs and x.args[0] in NZ:
                y = nonzero_test(x)
                if y is not None:
                    if y[0].id not in self.memo:
                        stack.append(y[0])
                        continue
                    todo = None
            if x.op == 'lin':
                todo = [k for k, _ in x.args[1] if k.id not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x.id] = self._ev1(x)
            stack.pop()
        return self.memo[t.id]

    def _ev1(self, t):
        op, a = t.op, t.args
        m = self.memo
        if op == 'const':
            return [num_mod(a[0])]
        if op == 'leaf':
            if not conc(t.shape):
                raise Undecided('leaf of unknown shape ' + str(a[0]))
            if 'complex' in (a[1] or ()):
                return [Z(_h(self.seed, 'leaf', a[0], k), _h(self.seed, 'leafi', a[0], k))
                        for k in range(nelem(t.shape))]
            return [_h(self.seed, 'leaf', a[0], k) for k in range(nelem(t.shape))]
        if t.shape is None or not conc(t.shape):
            raise Undecided('unknown shape in %s' % op)
        if op == 'lit':
            return [m[e.id][0] for e in a]
        if op == 'full':
            return m[a[0].id] * nelem(t.shape)
        if op == 'lin':
            s = a[0]
            for k, v in a[1]:
                s += v * m[k.id][0]
            return [s % PRIME]
        if op in ('add', 'sub', 'mul', 'div', 'pow'):
            return self._elt(op, a[0], a[1], t.shape)
        if op == 'neg':
            return [-x % PRIME for x in m[a[0].id]]
        if op == 'matmul':
            return mm(m[a[0].id], a[0].shape, m[a[1].id], a[1].shape)
        if op == 'T':
            src, axes = a
            st = _strides(src.shape)
            v = m[src.id]
            out = []
            for ii in _indices(t.shape):
                k = 0
                for ax, i in zip(axes, ii):
                    k += st[ax] * i
                out.append(v[k])
            return out
        if op == 'reshape':
            return m[a[0].id]
        if op == 'gather':
            v = m[a[0].id]
            return [v[k] for k in a[1]]
        if op == 'scatter':
            v = list(m[a[0].id])
            src = m[a[3].id]
            pos = _bpos(a[3].shape, a[2])
            for o, p in zip(a[1], pos):
                v[o] = src[p]
            return v
        if op == 'concat':
            return self._concat(a[0], a[1:], t.shape)
        if op == 'solve':
            return lin_solve(m[a[0].id], a[0].shape[0], m[a[1].id], t.shape)
        if op == 'phi':
            raise Undecided('joined value')
        if op == 'uf':
            return self._uf(t)
        raise Undecided('operator ' + op)

    def _elt(self, op, x, y, sh):
        ex, ey = self.memo[x.id], self.memo[y.id]
        if x.shape != sh:
            ex = [ex[k] for k in _bpos(x.shape, sh)]
        if y.shape != sh:
            ey = [ey[k] for k in _bpos(y.shape, sh)]
        if op == 'add':
            return [(p + q) % PRIME for p, q in zip(ex, ey)]
        if op == 'sub':
            return [(p - q) % PRIME for p, q in zip(ex, ey)]
        if op == 'mul':
            return [p * q % PRIME for p, q in zip(ex, ey)]
        if op == 'div':
            return [p * inv_mod(q) % PRIME for p, q in zip(ex, ey)]
        # pow: only constant exponents
        if y.op == 'const' and isinstance(y.args[0], int):
            k = y.args[0]
            if k >= 0:
                return [pow_mod(p, k) for p in ex]
            return [pow_mod(inv_mod(p), -k) for p in ex]
        if y.op == 'const' and y.args[0] == 0.5:
            return [sqrt_mod(p) for p in ex]
        if y.op == 'const' and y.args[0] == -0.5:
            return [inv_mod(sqrt_mod(p)) for p in ex]
        return [_h(self.seed, 'pow', p, q) for p, q in zip(ex, ey)]

    def _concat(self, axis, pieces, sh):
        if len(sh) == 1 or axis == 0:
            out = []
            for p in pieces:
                out += self.memo[p.id]
            return out
        # general axis
        outer = nelem(sh[:axis])
        out = []
        for o in range(outer):
            for p in pieces:
                blk = nelem(p.shape[axis:])
                out += self.memo[p.id][o * blk:(o + 1) * blk]
        return out

    def _uf(self, t):
        name, args = t.args[0], t.args[1:]
        f = self.ufs.get(name) or UFS.get(name)
        if f is not None:
            r = f(self, t, args)
            if r is not None:
                return r
        if name in ENTRYWISE and len(args) == 1 and t.shape == args[0].shape:
            ks = [hashlib.sha256(repr([((), (x,))]).encode()).hexdigest() for x in self.memo[args[0].id]]
            if name in COMPLEX_UF:
                return [Z(_h(self.seed, 'uf', name, k, 0), _h(self.seed, 'ufi', name, k, 0)) for k in ks]
            return [_h(self.seed, 'uf', name, k, 0) for k in ks]
        key = []
        for x in args:
            if isinstance(x, T):
                key.append((x.shape, tuple(self.memo[x.id])))
            else:
                key.append(x)
        k = hashlib.sha256(repr(key).encode()).hexdigest()
        if name in COMPLEX_UF:
            return [Z(_h(self.seed, 'uf', name, k, i), _h(self.seed, 'ufi', name, k, i))
                    for i in range(nelem(t.shape))]
        return [_h(self.seed, 'uf', name, k, i) for i in range(nelem(t.shape))]


def mm(x, sx, y, sy):
    if len(sx) > 2 or len(sy) > 2:
        raise Undecided('stacked matmul')
    r = sx[0] if len(sx) == 2 else 1
    k = sx[-1]
    c = sy[-1] if len(sy) == 2 else 1
    if (sy[0]) != k:
        raise Undecided('matmul shape')
    out = []
    for i in range(r):
        row = x[i * k:(i + 1) * k]
        for j in range(c):
            s = 0
            for q in range(k):
                s += row[q] * y[q * c + j]
            out.append(s % PRIME)
    return out


def lin_solve(a, n, b, bshape_):
    """solve a x = b mod PRIME; b flat with bshape (n,) or (n,k)"""
    c = bshape_[1] if len(bshape_) == 2 else 1
    M = [list(a[i * n:(i + 1) * n]) + list(b[i * c:(i + 1) * c]) for i in range(n)]
    for col in range(n):
        piv = next((r for r in range(col, n) if M[r][col]), None)
        if piv is None:
            raise Undecided('singular in the model')
        M[col], M[piv] = M[piv], M[col]
        iv = inv_mod(M[col][col])
        M[col] = [v * iv % PRIME for v in M[col]]
        for r in range(n):
            if r != col and M[r][col]:
                f = M[r][col]
                M[r] = [(u - f * v) % PRIME for u, v in zip(M[r], M[col])]
    out = []
    for i in range(n):
        out += M[i][n:]
    return out


def det_mod(a, n):
    M = [list(a[i * n:(i + 1) * n]) for i in range(n)]
    d = 1
    for col in range(n):
        piv = next((r for r in range(col, n) if M[r][col]), None)
        if piv is None:
            return 0
        if piv != col:
            M[col], M[piv] = M[piv], M[col]
            d = -d
        d = d * M[col][col] % PRIME
        iv = inv_mod(M[col][col])
        for r in range(col + 1, n):
            if M[r][col]:
                f = M[r][col] * iv % PRIME
                M[r] = [(u - f * v) % PRIME for u, v in zip(M[r], M[col])]
    return d % PRIME


# interpreted functions ---------------------------------------------------
def _u_kron(md, t, args):
    (sx, x), (sy, y) = ((a.shape, md.memo[a.id]) for a in args)
    n = max(len(sx), len(sy), 1)
    sx = (1,) * (n - len(sx)) + tuple(sx)
    sy = (1,) * (n - len(sy)) + tuple(sy)
    if n == 1:
        return [p * q % PRIME for p in x for q in y]
    if n != 2:
        raise Undecided('kron rank')
    out = []
    for i in range(sx[0]):
        for k in range(sy[0]):
            for j in range(sx[1]):
                for l in range(sy[1]):
                    out.append(x[i * sx[1] + j] * y[k * sy[1] + l] % PRIME)
    return out


def _u_sqrt(md, t, args):
    return [sqrt_mod(v) for v in md.memo[args[0].id]]


def _u_conv(md, t, args):
    x, y = (md.memo[a.id] for a in args)
    out = [0] * (len(x) + len(y) - 1)
    for i, p in enumerate(x):
        for j, q in enumerate(y):
            out[i + j] = (out[i + j] + p * q) % PRIME
    return out


def polydivmod(num, den):
    num = list(num)
    k = len(num) - len(den) + 1
    if k <= 0:
        return [0], num
    q = []
    iv = inv_mod(den[0])
    for i in range(k):
        c = num[i] * iv % PRIME
        q.append(c)
        for j, d in enumerate(den):
            num[i + j] = (num[i + j] - c * d) % PRIME
    return q, num


def _u_deconv_q(md, t, args):
    q, r = polydivmod(md.memo[args[0].id], md.memo[args[1].id])
    return q


def _u_deconv_r(md, t, args):
    q, r = polydivmod(md.memo[args[0].id], md.memo[args[1].id])
    return r


def _u_sum(md, t, args):
    x = args[0]
    axis = args[1]
    v = md.memo[x.id]
    if axis is None:
        return [sum(v) % PRIME]
    sh = x.shape
    axis %= len(sh)
    outer, mid, inner = nelem(sh[:axis]), sh[axis], nelem(sh[axis + 1:])
    out = []
    for o in range(outer):
        for i in range(inner):
            out.append(sum(v[(o * mid + k) * inner + i] for k in range(mid)) % PRIME)
    return out


def _u_prod(md, t, args):
    v = md.memo[args[0].id]
    r = 1
    for x in v:
        r = r * x % PRIME
    return [r]


def _u_trace(md, t, args):
    n, m = args[0].shape
    v = md.memo[args[0].id]
    return [sum(v[i * m + i] for i in range(min(n, m))) % PRIME]


def _u_polyval(md, t, args):
    p, x = md.memo[args[0].id], md.memo[args[1].id]
    out = []
    for z in x:
        s = 0
        for c in p:
            s = (s * z + c) % PRIME
        out.append(s)
    return out


def _u_matpow(md, t, args):
    x, k = args[0], args[1]
    n = x.shape[0]
    if k < 0:
        b = lin_solve(md.memo[x.id], n, [int(i == j) for i in range(n) for j in range(n)], (n, n))
        k = -k
    else:
        b = md.memo[x.id]
    r = [int(i == j) for i in range(n) for j in range(n)]
    for _ in range(k):
        r = mm(r, (n, n), b, (n, n))
    return r


def _u_real(md, t, args):
    return [v.re if isinstance(v, Z) else v for v in md.memo[args[0].id]]


def _u_imag(md, t, args):
    return [v.im if isinstance(v, Z) else 0 for v in md.memo[args[0].id]]


def _u_conj(md, t, args):
    return [Z(v.re, -v.im) % PRIME if isinstance(v, Z) else v for v in md.memo[args[0].id]]


def _u_det(md, t, args):
    return [det_mod(md.memo[args[0].id], args[0].shape[0])]


def charpoly_mod(a, n):
    """coefficients (descending) of det(sI - A) by Faddeev-LeVerrier"""
    M = [0] * (n * n)
    c = [1]
    for k in range(1, n + 1):
        # M = A M + c_{k-1} I
        M = mm(a, (n, n), M, (n, n))
        for i in range(n):
            M[i * n + i] = (M[i * n + i] + c[-1]) % PRIME
        AM = mm(a, (n, n), M, (n, n))
        tr = sum(AM[i * n + i] for i in range(n)) % PRIME
        c.append(-tr * inv_mod(k) % PRIME)
    return c


# ---- roots of polynomials: exact, in GF(p)[i]; a model in which a polynomial does
# not split there is passed over (NonResidue)
def _ptrim(a):
    i = 0
    while i < len(a) - 1 and a[i] % PRIME == 0:
        i += 1
    return a[i:]


def _pmod(a, f):
    """a mod f, descending coefficients over GF(p), f monic"""
    a = list(a)
    n = len(f) - 1
    while len(a) > n:
        c = a[0] % PRIME
        if c:
            for i in range(1, n + 1):
                a[i] = (a[i] - c * f[i]) % PRIME
        a.pop(0)
    return a or [0]


def _pmulmod(a, b, f):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = (r[i + j] + x * y) % PRIME
    return _pmod(r, f)


def _ppow(a, k, f):
    r = [1]
    a = _pmod(a, f)
    while k:
        if k & 1:
            r = _pmulmod(r, a, f)
        k >>= 1
        if k:
            a = _pmulmod(a, a, f)
    return r


def _pmonic(a):
    a = _ptrim(a)
    k = inv_mod(a[0])
    return [x * k % PRIME for x in a]


def _pgcd(a, b):
    a, b = _ptrim(a), _ptrim(b)
    while any(x % PRIME for x in b):
        b = _pmonic(b)
        a, b = b, _ptrim(_pmod(a, b))
    return _pmonic(a)


def _psub(a, b):
    n = max(len(a), len(b))
    a, b = [0] * (n - len(a)) + list(a), [0] * (n - len(b)) + list(b)
    return [(x - y) % PRIME for x, y in zip(a, b)]


def sqrt_any(x):
    """some square root in GF(p)[i]"""
    x = x % PRIME
    if not isinstance(x, Z):
        if x == 0:
            return 0
        r = pow(x, (PRIME + 1) // 4, PRIME)
        if r * r % PRIME == x:
            return r
        return Z(0, pow(-x % PRIME, (PRIME + 1) // 4, PRIME))
    n = (x.re * x.re + x.im * x.im) % PRIME
    s = pow(n, (PRIME + 1) // 4, PRIME)
    if s * s % PRIME != n:
        raise NonResidue()
    h = inv_mod(2)
    for sg in (s, -s):
        t = (x.re + sg) * h % PRIME
        r = pow(t, (PRIME + 1) // 4, PRIME)
        if t and r * r % PRIME == t:
            return Z(r, x.im * inv_mod(2 * r) % PRIME) % PRIME
    raise NonResidue()


def roots_mod(cs):
    """all roots of a polynomial (descending coefficients), sorted"""
    if not cs or cs[0] % PRIME == 0:
        raise Undecided('leading coefficient vanishes')
    out = []
    cs = list(cs)
    while len(cs) > 1 and cs[-1] % PRIME == 0 and not isinstance(cs[-1], Z):
        cs.pop()
        out.append(0)
    _roots(cs, out)
    return sorted(out, key=lambda r: (r.re, r.im) if isinstance(r, Z) else (r, -1))


def _roots(cs, out):
    n = len(cs) - 1
    if n == 0:
        return
    k = inv_mod(cs[0])
    f = [c * k % PRIME for c in cs]
    if n == 1:
        out.append(-f[1] % PRIME)
        return
    if n == 2:
        h = inv_mod(2)
        d = sqrt_any(f[1] * f[1] - 4 * f[2])
        out.append((d - f[1]) * h % PRIME)
        out.append((-d - f[1]) * h % PRIME)
        return
    if any(isinstance(c, Z) for c in f):
        raise Undecided('complex polynomial')
    # split off the roots in GF(p), then the quadratic factors
    lin = _pgcd(f, _psub(_ppow([1, 0], PRIME, f), [1, 0]))
    _equal(lin, 1, out)
    rest = f
    while len(lin) > 1:
        q, r = polydivmod(rest, lin)
        if any(x % PRIME for x in r):
            break
        rest = [x % PRIME for x in q]
        more = _pgcd(rest, lin)
        if len(more) > 1:
            _equal(more, 1, out)
        lin = more
    if len(rest) > 1:
        x1 = _ppow([1, 0], PRIME, rest)
        x2 = _ppow(x1, PRIME, rest)
        quad = _pgcd(rest, _psub(x2, [1, 0]))
        if len(quad) != len(rest):
            raise NonResidue()
        _equal(quad, 2, out)


def _equal(f, d, out):
    """roots of a product of distinct irreducible factors of degree d"""
    n = len(f) - 1
    if n == 0:
        return
    if n == d:
        _roots(f, out)
        return
    for k in range(1, 60):
        g = [1] + [_h('split', k, i) for i in range(n - 1)] if n > 1 else [1]
        w = _psub(_ppow(g, (PRIME ** d - 1) // 2, f), [1])
        h = _pgcd(f, w)
        if 1 < len(h) < len(f):
            _equal(h, d, out)
            q, _ = polydivmod(f, h)
            _equal([x % PRIME for x in q], d, out)
            return
    raise NonResidue()


def _u_eigvals(md, t, args):
    if len(args) != 1:
        return None
    n = args[0].shape[0]
    return roots_mod(charpoly_mod(md.memo[args[0].id], n))


def _u_roots(md, t, args):
    cs = md.memo[args[0].id]
    if len(cs) - 1 != nelem(t.shape):
        return None
    return roots_mod(cs)


def _u_poly(md, t, args):
    """monic polynomial with the given roots"""
    out = [1]
    for r in md.memo[args[0].id]:
        nxt = out + [0]
        for i, c in enumerate(out):
            nxt[i + 1] = (nxt[i + 1] - c * r) % PRIME
        out = nxt
    return out


def siso_num_mod(a, n, b, c, d):
    """numerator of d + c (sI-A)^-1 b over det(sI-A), by interpolation"""
    xs = list(range(1, n + 2))
    ys = []
    for x in xs:
        m = [(-v) % PRIME for v in a]
        for i in range(n):
            m[i * n + i] = (m[i * n + i] + x) % PRIME
        sol = lin_solve(m, n, b, (n, 1))
        g = (d + sum(p * q for p, q in zip(c, sol))) % PRIME
        ys.append(g * det_mod(m, n) % PRIME)
    # Lagrange
    out = [0] * (n + 1)
    for i, x in enumerate(xs):
        base, den = [1], 1
        for j, y in enumerate(xs):
            if j != i:
                nxt = base + [0]
                for k, v in enumerate(base):
                    nxt[k + 1] = (nxt[k + 1] - v * y) % PRIME
                base = nxt
                den = den * (x - y) % PRIME
        k = ys[i] * inv_mod(den) % PRIME
        out = [(o + k * v) % PRIME for o, v in zip(out, base)]
    return out


def _u_tzeros(md, t, args):
    a, b, c, d = args
    if d.shape != (1, 1) or not conc(t.shape):
        return None
    n = a.shape[0]
    cs = siso_num_mod(md.memo[a.id], n, md.memo[b.id], md.memo[c.id], md.memo[d.id][0])
    i = 0
    while i < len(cs) - 1 and cs[i] == 0:
        i += 1
    cs = cs[i:]
    if len(cs) - 1 != nelem(t.shape):
        raise Undecided('special number of zeros')
    return roots_mod(cs)


def _u_charpoly(md, t, args):
    return charpoly_mod(md.memo[args[0].id], args[0].shape[0])


EXP_DEG = 12


def _u_expm(md, t, args):
    """a fixed polynomial stands for exp: it commutes with similarity and
    block structure exactly as the matrix exponential does"""
    n = args[0].shape[0]
    x = md.memo[args[0].id]
    term = [int(i == j) for i in range(n) for j in range(n)]
    s = list(term)
    for k in range(1, EXP_DEG):
        term = mm(term, (n, n), x, (n, n))
        ik = inv_mod(k)
        term = [v * ik % PRIME for v in term]
        s = [(p + q) % PRIME for p, q in zip(s, term)]
    return s


def _u_where(md, t, args):
    return None


def _u_thresh(md, t, args):
    # x with entries below a clean-up tolerance zeroed: treated as x
    return md.memo[args[0].id]


def _u_cumsum(md, t, args):
    s, out = 0, []
    for v in md.memo[args[0].id]:
        s = (s + v) % PRIME
        out.append(s)
    return out


def _u_einsum(md, t, args):
    spec = args[0]
    ops = args[1:]
    lhs, rhs = spec.replace(' ', '').split('->')
    ins = lhs.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        for ch, d in zip(s, o.shape):
            dims[ch] = d
    summed = [ch for ch in dims if ch not in rhs]
    out = []
    for oi in _indices(tuple(dims[c] for c in rhs)):
        env = dict(zip(rhs, oi))
        tot = 0
        for si in _indices(tuple(dims[c] for c in summed)):
            env.update(zip(summed, si))
            pr = 1
            for s, o in zip(ins, ops):
                st = _strides(o.shape)
                k = sum(env[ch] * q for ch, q in zip(s, st))
                pr = pr * md.memo[o.id][k] % PRIME
            tot += pr
        out.append(tot % PRIME)
    return out


COMPLEX_UF = {'eigvals', 'eig_w', 'eig_v', 'roots', 'log', 'tzeros', 'zexp'}

UFS = {'kron': _u_kron, 'imul': lambda md, t, args: [md.memo[args[0].id][0] * md.memo[args[1].id][0] % PRIME], 'sqrt': _u_sqrt, 'conv': _u_conv, 'deconv_q': _u_deconv_q,
       'deconv_r': _u_deconv_r, 'sum': _u_sum, 'prod': _u_prod, 'trace': _u_trace,
       'polyval': _u_polyval, 'matpow': _u_matpow, 'real': _u_real, 'imag': _u_imag,
       'det': _u_det, 'charpoly': _u_charpoly, 'expm': _u_expm, 'thresh': _u_thresh,
       'cumsum': _u_cumsum, 'conj': _u_conj, 'einsum': _u_einsum, 'poly': _u_poly}

def _tr(a, r, c):
    return [a[i * c + j] for j in range(c) for i in range(r)]


def orth_mod(n, *key):
    """a pseudo random orthogonal matrix (Cayley transform)"""
    K = [0] * (n * n)
    for i in range(n):
        for j in range(i):
            K[i * n + j] = _h('cayley', i, j, *key)
            K[j * n + i] = -K[i * n + j] % PRIME
    P = [(int(i == j) + K[i * n + j]) % PRIME for i in range(n) for j in range(n)]
    M = [(int(i == j) - K[i * n + j]) % PRIME for i in range(n) for j in range(n)]
    return lin_solve(P, n, M, (n, n))


def _vkey(md, x):
    return hashlib.sha256(repr((x.shape, md.memo[x.id])).encode()).hexdigest()


def _u_hess_q(md, t, args):
    """Arnoldi from e1: orthogonal, first column e1 and q^T a q upper Hessenberg,
    as the LAPACK reduction (up to the signs of the columns)"""
    n = t.shape[0]
    a = md.memo[args[0].id]
    if any(isinstance(v, Z) for v in a):
        raise Undecided('complex hessenberg')
    Q = [[int(i == 0) for i in range(n)]]
    cand = [mm(a, (n, n), Q[0], (n,))]
    while len(Q) < n:
        if cand:
            v = cand.pop()
        else:
            v = [_h(md.seed, 'arnoldi', len(Q), i) for i in range(n)]
        w = list(v)
        for q in Q:
            k = sum(x * y for x, y in zip(q, v)) % PRIME
            w = [(x - k * y) % PRIME for x, y in zip(w, q)]
        if not any(w):
            continue
        k = inv_mod(sqrt_mod(sum(x * x for x in w) % PRIME))
        Q.append([x * k % PRIME for x in w])
        cand = [mm(a, (n, n), Q[-1], (n,))]
    return [Q[j][i] for i in range(n) for j in range(n)]


def _u_hess_h(md, t, args):
    n = t.shape[0]
    q = _u_hess_q(md, t, args)
    return mm(_tr(q, n, n), (n, n), mm(md.memo[args[0].id], (n, n), q, (n, n)), (n, n))


def _qr(md, x):
    """Gram-Schmidt; full orthogonal factor"""
    r, c = x.shape
    a = md.memo[x.id]
    if any(isinstance(v, Z) for v in a):
        raise Undecided('complex qr')
    cols = [[a[i * c + j] for i in range(r)] for j in range(c)] + [[int(i == j) for i in range(r)] for j in range(r)]
    Q = []
    for v in cols:
        if len(Q) == r:
            break
        w = list(v)
        for q in Q:
            k = sum(x_ * y for x_, y in zip(q, v)) % PRIME
            w = [(x_ - k * y) % PRIME for x_, y in zip(w, q)]
        if not any(w):
            continue
        n2 = sum(x_ * x_ for x_ in w) % PRIME
        k = inv_mod(sqrt_mod(n2))
        Q.append([x_ * k % PRIME for x_ in w])
    if len(Q) != r:
        raise NonResidue()
    return Q


def _u_qr_q(md, t, args):
    Q = _qr(md, args[0])
    k = t.shape[1]
    return [Q[j][i] for i in range(t.shape[0]) for j in range(k)]


def _u_qr_r(md, t, args):
    x = args[0]
    r, c = x.shape
    Q = _qr(md, x)
    a = md.memo[x.id]
    return [sum(Q[i][k] * a[k * c + j] for k in range(r)) % PRIME for i in range(t.shape[0]) for j in range(c)]


def _u_lu_u(md, t, args):
    """row echelon form; rows are exchanged where a pivot vanishes"""
    r, c = args[0].shape
    a = md.memo[args[0].id]
    if any(isinstance(v, Z) for v in a):
        raise Undecided('complex lu')
    rows = [list(a[i * c:(i + 1) * c]) for i in range(r)]
    k = 0
    for j in range(c):
        p = next((i for i in range(k, r) if rows[i][j]), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        v = inv_mod(rows[k][j])
        for i in range(k + 1, r):
            if rows[i][j]:
                f = rows[i][j] * v % PRIME
                rows[i] = [(x - f * y) % PRIME for x, y in zip(rows[i], rows[k])]
        k += 1
    return [e for row in rows[:t.shape[0]] for e in row]


def _u_eig_v(md, t, args):
    if len(args) != 1:
        return None
    n = t.shape[0]
    a = md.memo[args[0].id]
    out = [0] * (n * n)
    for k, w in enumerate(_u_eigvals(md, t, args)):
        v = null_mod([[(a[i * n + j] - (w if i == j else 0)) % PRIME for j in range(n)] for i in range(n)], n)
        for i in range(n):
            out[i * n + k] = v[i]
    return out


def null_mod(rows, n):
    """a vector spanning the kernel of a square matrix of rank n-1"""
    rows = [list(r) for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, n) if rows[i][c] % PRIME != 0 or isinstance(rows[i][c] % PRIME, Z)), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        k = inv_mod(rows[r][c])
        rows[r] = [x * k % PRIME for x in rows[r]]
        for i in range(n):
            if i != r:
                f = rows[i][c]
                rows[i] = [(x - f * y) % PRIME for x, y in zip(rows[i], rows[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(n) if c not in piv]
    if len(free) != 1:
        raise Undecided('degenerate eigenvalue')
    v = [0] * n
    v[free[0]] = 1
    for i, c in enumerate(piv):
        v[c] = -rows[i][free[0]] % PRIME
    return v


def _bal(md, args):
    """(permutation, scaling) of matrix_balance: arbitrary ones stand for
    those that LAPACK would choose"""
    n = args[0].shape[0]
    k = _vkey(md, args[0])
    perm = list(range(n))
    if args[1]:
        perm.sort(key=lambda i: _h(md.seed, 'balp', k, i))
    return n, perm, [_h(md.seed, 'bals', k, i) if args[2] else 1 for i in range(n)]


def _u_bal_a(md, t, args):
    n, p, d = _bal(md, args)
    a = md.memo[args[0].id]
    return [a[p[i] * n + p[j]] * d[j] * inv_mod(d[i]) % PRIME for i in range(n) for j in range(n)]


def _u_bal_s(md, t, args):
    return _bal(md, args)[2]


def _u_bal_p(md, t, args):
    return _bal(md, args)[1]


def _u_bal_t(md, t, args):
    n, p, d = _bal(md, args)
    return [d[j] if p[j] == i else 0 for i in range(n) for j in range(n)]


def _u_expm_rec(md, t, args):
    """as _u_expm; remembers the exponentials seen, so that logarithms of
    matrices built from them can be interpreted"""
    r = _u_expm(md, t, args)
    n = args[0].shape[0]
    md.memo.setdefault('exps', []).append((n, md.memo[args[0].id], r))
    return r


def _blk(a, n, r0, r1, c0, c1):
    return [a[i * n + j] for i in range(r0, r1) for j in range(c0, c1)]


def _as_poly(x, e, n):
    """coefficients p with x = p(e) (e non-derogatory), or None"""
    v = [_h('cyclic', i) for i in range(n)]
    ks, w = [], v
    for _ in range(n):
        ks.append(w)
        w = mm(e, (n, n), w, (n,))
    try:
        p = lin_solve([ks[j][i] for i in range(n) for j in range(n)], n, mm(x, (n, n), v, (n,)), (n,))
    except Undecided:
        return None
    return p if _polymat(p, e, n) == [y % PRIME for y in x] else None


def _polymat(p, f, n):
    """p(f), coefficients in ascending order"""
    out = [0] * (n * n)
    for c in reversed(p):
        out = mm(out, (n, n), f, (n, n))
        for i in range(n):
            out[i * n + i] = (out[i * n + i] + c) % PRIME
    return out


def _u_logm(md, t, args):
    """logarithm of [[F, V], [0, U]], U unipotent and the spectrum of F inside
    that of a leading block of an exponential seen before"""
    n = t.shape[0]
    m = md.memo[args[0].id]
    for N, X, E in md.memo.get('exps', ()):
        for K, k in itertools.product(range(N, 0, -1), range(n, 0, -1)):
            if any(_blk(X, N, K, N, 0, K)) or any(_blk(m, n, k, n, 0, k)):
                continue
            F, B = _blk(m, n, 0, k, 0, k), _blk(E, N, 0, K, 0, K)
            if any(_polymat(charpoly_mod(B, K)[::-1], F, k)):
                continue
            p = _as_poly(_blk(X, N, 0, K, 0, K), B, K)
            if p is None:
                continue
            L = _polymat(p, F, k)
            q = n - k
            if q == 0:
                return L
            U, V = _blk(m, n, k, n, k, n), _blk(m, n, 0, k, k, n)
            W = [(U[i * q + j] - int(i == j)) % PRIME for i in range(q) for j in range(q)]
            lu, P = [0] * (q * q), [int(i == j) for i in range(q) for j in range(q)]
            for e in range(1, q + 1):
                P = mm(P, (q, q), W, (q, q))
                c = inv_mod(e) * (1 if e % 2 else -1)
                lu = [(a + c * b) % PRIME for a, b in zip(lu, P)]
            if any(P):
                continue
            # Y U - F Y = V lu - L V
            R = [(b - a) % PRIME for a, b in zip(mm(L, (k, k), V, (k, q)), mm(V, (k, q), lu, (q, q)))]
            M = [0] * (k * q * k * q)
            for i in range(k):
                for j in range(q):
                    r = i * q + j
                    for h in range(q):
                        M[r * k * q + i * q + h] += U[h * q + j]
                    for h in range(k):
                        M[r * k * q + h * q + j] -= F[i * k + h]
            try:
                Y = lin_solve([x % PRIME for x in M], k * q, R, (k * q, 1))
            except Undecided:
                continue
            out = []
            for i in range(n):
                for j in range(n):
                    out.append(L[i * k + j] if i < k and j < k else Y[i * q + j - k] if i < k else
                               lu[(i - k) * q + j - k] if j >= k else 0)
            return out
    raise Undecided('logarithm')


def _complete(Q, n, key):
    """extend orthonormal vectors to a basis"""
    Q, k = list(Q), 0
    while len(Q) < n:
        k += 1
        if k > 200:
            raise NonResidue()
        v = [_h('complete', k, i, *key) for i in range(n)]
        for q in Q:
            f = sum(x * y for x, y in zip(q, v)) % PRIME
            v = [(x - f * y) % PRIME for x, y in zip(v, q)]
        try:
            f = inv_mod(sqrt_mod(sum(x * x for x in v) % PRIME))
        except (NonResidue, Undecided):
            continue
        if _h('sign', k, *key) & 1:
            f = -f
        Q.append([x * f % PRIME for x in v])
    return Q


BADSEED = {}


def _svd(md, x):
    """as _svd1; remembers the draws without a factorization in the field"""
    try:
        return _svd1(md, x)
    except NonResidue:
        if not md.defs:
            BADSEED.setdefault(x.id, set()).add(md.seed)
        raise


def bad_seeds(*ts):
    out = set()
    for t in ts:
        for x in walk(t):
            if x.op == 'uf' and x.args[0] in ('svd_s', 'svd_u', 'svd_v') and x.args[1].id in BADSEED:
                out |= BADSEED[x.args[1].id]
    return out


def _svd1(md, x):
    """(columns of U, singular values, rows of V) with U S V = x, U and V orthogonal"""
    r = md.memo.get(('svd', x.id))
    if r is not None:
        return r
    if len(x.shape) != 2:
        raise Undecided('svd of a stack')
    r, c = x.shape
    a = md.memo[x.id]
    if any(isinstance(v, Z) for v in a):
        raise Undecided('complex svd')
    at = _tr(a, r, c)
    if r >= c:
        k, g = c, mm(at, (c, r), a, (r, c))
    else:
        k, g = r, mm(a, (r, c), at, (c, r))
    lam = _u_eig_list(g, k)
    if any(isinstance(w, Z) for w in lam) or len(set(lam) - {0}) != len([w for w in lam if w]):
        raise NonResidue()
    nz = [w for w in lam if w]
    sg = [sqrt_mod(w) for w in nz]
    one = []
    for w in nz:
        v = null_mod([[(g[i * k + j] - (w if i == j else 0)) % PRIME for j in range(k)] for i in range(k)], k)
        f = inv_mod(sqrt_mod(sum(y * y for y in v) % PRIME)) * (1 if _h('sign', md.seed, w) & 1 else -1)
        one.append([y * f % PRIME for y in v])
    two = []
    for v, w in zip(one, sg):
        f = inv_mod(w)
        y = mm(a, (r, c), v, (c,)) if r >= c else mm(at, (c, r), v, (r,))
        two.append([e * f % PRIME for e in y])
    U, V = (two, one) if r >= c else (one, two)
    key = (md.seed, hashlib.sha256(repr(a).encode()).hexdigest())
    r_ = (_complete(U, r, key + ('u',)), sg + [0] * (k - len(sg)), _complete(V, c, key + ('v',)))
    md.memo[('svd', x.id)] = r_
    return r_


def _u_eig_list(g, k):
    return roots_mod(charpoly_mod(g, k)) if k > 1 else [g[0] % PRIME]


def _u_svd_u(md, t, args):
    U = _svd(md, args[0])[0]
    return [U[j][i] for i in range(t.shape[0]) for j in range(t.shape[1])]


def _u_svd_s(md, t, args):
    return list(_svd(md, args[0])[1])


def _u_svd_v(md, t, args):
    V = _svd(md, args[0])[2]
    return [V[i][j] for i in range(t.shape[0]) for j in range(t.shape[1])]


# comparisons with a tolerance are read as tests for zero
NZ = {'agt': (1, 0), 'age': (1, 0), 'alt': (0, 0), 'ale': (0, 0), 'lt': (0, 1)}


def tolerance(t):
    v = constval(t)
    if v is not None:
        return not isinstance(v, complex) and 0 <= v < 1e-3
    if t.op == 'div' and not tolerance(t.args[0]) and any(x.op == 'uf' and x.args[0] == 'spacing' for x in walk(t.args[1])):
        return False
    return any(x.op == 'uf' and x.args[0] == 'spacing' for x in walk(t))


def huge(t):
    """a bound that data in general position stays below"""
    v = constval(t)
    if v is not None:
        return not isinstance(v, complex) and v > 1e12
    return t.op == 'div' and constval(t.args[0]) is not None and t.args[1].op == 'uf' and t.args[1].args[0] == 'spacing'


def below(c):
    """truth of a comparison with a huge bound"""
    if c.op == 'not':
        r = below(c.args[0])
        return None if r is None else not r
    if c.op != 'uf' or c.args[0] not in NZ:
        return None
    up = c.args[0] in ('agt', 'age')
    if huge(c.args[2]):
        return not up
    if huge(c.args[1]):
        return up
    return None


def magnitude(t):
    """term whose zero pattern is that of the nonnegative term t (and whether it is a matrix whose rank counts)"""
    if t.op == 'uf' and t.args[0] in ('abs', 'sqrt'):
        return t.args[1], False
    if t.op == 'uf' and t.args[0] == 'svd_s':
        return t.args[1], True
    if t.op == 'uf' and t.args[0] == 'cancel0':
        return t, False
    if t.op == 'uf' and t.args[0] == 'min' and t.shape == ():
        ms = [magnitude(x) for x in t.args[1:]]
        if all(m is not None and not m[1] and m[0].shape == () for m in ms):
            r = ms[0][0]
            for m in ms[1:]:
                r = arith('mul', r, m[0])
            return r, False
    return None


def nonzero_test(c):
    """(term, is matrix of singular values, truth for zero, position) of a comparison of a magnitude with a tolerance"""
    a, b = c.args[1], c.args[2]
    k = c.args[0]
    up = k in ('agt', 'age')
    for x, y, small in ((a, b, not up), (b, a, up)):
        pos = None
        if x.op == 'gather' and x.shape == () and x.args[0].op == 'uf' and x.args[0].args[0] == 'svd_s':
            pos, x = x.args[1][0], x.args[0]
        m = magnitude(x)
        if m is not None and tolerance(y) and (x.shape == c.shape or pos is not None):
            return m[0], m[1], small, pos
    return None


def _u_cmp(md, t, args):
    r = below(t)
    if r is not None:
        return [int(r)] * nelem(t.shape)
    r = nonzero_test(t)
    if r is None:
        return None
    x, sv, small, pos = r
    v = md.memo.get(x.id)
    if v is None:
        return None
    if sv:
        k = min(x.shape)
        n = rank_mod(v, x.shape)
        out = [int((i >= n) == small) for i in range(k)]
        return [out[pos]] if pos is not None else out
    return [int((e == 0) == small) for e in v]


def _u_maskset(md, t, args):
    a, m, v = (md.memo[x.id] for x in args[:3])
    if any(x not in (0, 1) for x in m) or len(m) != len(a):
        return None
    return [(v[0] if len(v) == 1 else None) if q else x for x, q in zip(a, m)] if len(v) == 1 else None


def rank_mod(v, sh):
    r, c = sh
    rows = [list(v[i * c:(i + 1) * c]) for i in range(r)]
    k = 0
    for j in range(c):
        p = next((i for i in range(k, r) if rows[i][j] != 0), None)
        if p is None:
            continue
        rows[k], rows[p] = rows[p], rows[k]
        f = inv_mod(rows[k][j])
        for i in range(k + 1, r):
            g = rows[i][j] * f % PRIME
            rows[i] = [(x - g * y) % PRIME for x, y in zip(rows[i], rows[k])]
        k += 1
    return k


def _u_rank(md, t, args):
    return [rank_mod(md.memo[args[0].id], args[0].shape)]


def _u_lstsq(md, t, args):
    """least squares (minimum norm) solution for a matrix of full rank"""
    a, b = args
    r, c = a.shape
    x, y = md.memo[a.id], md.memo[b.id]
    q = b.shape[1] if len(b.shape) > 1 else 1
    if rank_mod(x, a.shape) != min(r, c):
        raise Undecided('rank deficient least squares')
    xt = _tr(x, r, c)
    if r >= c:
        return lin_solve(mm(xt, (c, r), x, (r, c)), c, mm(xt, (c, r), y, (r, q)), (c, q))
    return mm(xt, (c, r), lin_solve(mm(x, (r, c), xt, (c, r)), r, y, (r, q)), (r, q))


def _u_cancel(md, t, args):
    """distance of a pair to uncontrollable ones"""
    f, g = args
    n, m = g.shape
    x, y = md.memo[f.id], md.memo[g.id]
    cols = [y]
    for _ in range(n - 1):
        cols.append(mm(x, (n, n), cols[-1], (n, m)))
    k = [e for i in range(n) for c in cols for e in c[i * m:(i + 1) * m]]
    if rank_mod(k, (n, m * n)) < n:
        return [0]
    return [_h(md.seed, 'cancel', tuple(x), tuple(y)) or 1]


def _u_sym(md, t, args):
    """the unique symmetric solution of an equation given by the arguments"""
    k = t.shape[0]
    key = (t.args[0],) + tuple((a.shape, tuple(md.memo[a.id])) for a in args)
    return [_h(md.seed, 'sym', key, min(i, j) * k + max(i, j)) for i in range(k) for j in range(k)]


# exact interpretations that are too costly for the decisions made while interpreting
EXACT = {'agt': _u_cmp, 'age': _u_cmp, 'alt': _u_cmp, 'ale': _u_cmp, 'lt': _u_cmp, 'rank': _u_rank, 'lstsq': _u_lstsq, 'maskset': _u_maskset,
         'eigvals': _u_eigvals, 'roots': _u_roots, 'tzeros': _u_tzeros, 'eig_w': _u_eigvals, 'eig_v': _u_eig_v,
         'hess_q': _u_hess_q, 'hess_h': _u_hess_h, 'qr_q': _u_qr_q, 'qr_r': _u_qr_r, 'lu_u': _u_lu_u,
         'bal_a': _u_bal_a, 'bal_s': _u_bal_s, 'bal_p': _u_bal_p, 'bal_t': _u_bal_t,
         'svd_u': _u_svd_u, 'svd_s': _u_svd_s, 'svd_v': _u_svd_v, 'expm': _u_expm_rec, 'logm': _u_logm,
         'cancel0': _u_cancel, 'care': _u_sym, 'dare': _u_sym,
         'qr_p': lambda md, t, args: list(range(t.shape[0]))}

# one pool of models for all comparisons of a case: every term is evaluated once per model
_pool = {}


def clear_models():
    _pool.clear()


def _model(seed, defs, ufs):
    if defs or ufs:
        return Model(seed, defs, ufs)
    m = _pool.get(seed)
    if m is None:
        m = _pool[seed] = Model(seed)
    return m


def draws(*ts):
    """how often to draw: singular values have to be squares in the field"""
    k = 0
    for t in ts:
        for x in walk(t):
            if x.op == 'uf' and x.args[0] in ('svd_s', 'svd_u', 'svd_v') and x.args[1].shape is not None and conc(x.args[1].shape):
                k = max(k, min(x.args[1].shape))
    many = {0: 60, 1: 120, 2: 900}.get(k, 3000)
    # so do norms
    q = len({x.id for t in ts for x in walk(t) if x.op == 'uf' and x.args[0] == 'sqrt'})
    q += max([x.shape[1] for t in ts for x in walk(t) if x.op == 'uf' and x.args[0] == 'qr_q' and conc(x.shape)], default=0) if q else 0
    return max(many, min(60 << q, 3000)) if q > 1 else many


def _holds(md, c):
    """truth of a condition in a model (None: it has no reading there)"""
    if c.op == 'const':
        return bool(c.args[0])
    if c.op == 'not':
        r = _holds(md, c.args[0])
        return None if r is None else not r
    if c.op == 'gather' and c.shape == ():
        v = md.ev(c)[0]
        return bool(v) if v in (0, 1) else None
    if c.op != 'uf':
        return None
    k = c.args[0]
    if k == 'eq':
        return md.ev(c.args[1]) == md.ev(c.args[2])
    if k in ('any', 'all'):
        t = c.args[1]
        if t.op == 'lit':
            vs = [_holds(md, e) if e.op in ('not', 'uf', 'const') and (e.op != 'const' or isinstance(e.args[0], bool)) else md.ev(e)[0] != 0
                  for e in t.args]
        else:
            vs = [e != 0 for e in md.ev(t)]
        if k == 'any':
            return True if True in vs else None if None in vs else False
        return False if False in vs else None if None in vs else True
    if k == 'lt':
        r = nonzero_test(c)
        if r is not None:
            return bool(md.ev(c)[0])
        a, b = c.args[1], c.args[2]
        if all(x.op in ('const', 'lin') or x in BOUNDS for x in (a, b)):
            a, b = md.ev(a)[0], md.ev(b)[0]
            big = PRIME >> 1
            a, b = (x - PRIME if x > big else x for x in (a, b))
            return a < b if max(abs(a), abs(b)) < 10 ** 6 else None
    return None


def counts(t):
    """does the value depend on zero patterns only"""
    return any(x.op == 'uf' and x.args[0] in ('svd_s', 'rank', 'qr_r', 'lu_u') for x in walk(t))


def _exact(t, f):
    got = []
    many = draws(t)
    bad = bad_seeds(t) if many > 60 else ()
    for seed in range(many):
        if seed in bad:
            continue
        md = Model(seed, None, EXACT)
        try:
            r = f(md)
        except NonResidue:
            continue
        except (Undecided, ZeroDivisionError):
            return None
        if r is None or got and got[0] != r:
            return None
        got.append(r)
        if len(got) == 2:
            return got[0]
    return None


_TRUTH = {}


def exact_truth(c):
    """truth of a condition for data in general position, factorizations interpreted"""
    r = _TRUTH.get(c.id, 0)
    if r == 0:
        r = _TRUTH[c.id] = _exact(c, lambda md: _holds(md, c))
    return r


def exact_int(t):
    """the small integer a term denotes for data in general position"""
    if not counts(t):
        return None
    r = _TRUTH.get(t.id, 0)
    if r == 0:
        r = _TRUTH[t.id] = _exact(t, lambda md: md.ev(t)[0] if t.shape == () else None)
    return r if isinstance(r, int) and r < 10 ** 4 else None


def same(a, b, defs=None, ufs=None, trials=2):
    """True / False / None (undecided) : do a and b denote the same value"""
    if a is b:
        return True
    if a.shape is None or b.shape is None or not conc(a.shape) or not conc(b.shape):
        return None
    if a.shape != b.shape:
        return False
    done, many = 0, draws(a, b) if ufs else 40
    bad = bad_seeds(a, b) if many > 60 and not defs else ()
    if 60 < many < 1000:
        trials = 4
    for seed in range(many):
        if seed in bad:
            continue
        md = _model(seed, defs, ufs)
        try:
            x, y = md.ev(a), md.ev(b)
        except NonResidue:
            continue
        except Undecided:
            return None
        if x != y:
            return False
        done += 1
        if done >= trials:
            return True
    return None
