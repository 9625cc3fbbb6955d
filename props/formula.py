"""Value numbering of models: the transfer matrix of a model as a term, and
comparison of such terms under the assumptions of a path."""
from .ops import *

Z_ = tm.leaf('z!', ())


# ------------------------------------------------------------ terms of models
def horner(es, z):
    acc = es[0]
    for e in es[1:]:
        acc = tm.arith('add', tm.arith('mul', acc, z), e)
    return acc


def mterm(I, v, s, name):
    t = term(attr(I, v, s, name), s)
    if t is None or t.shape is None or not tm.conc(t.shape):
        raise Undecided('attribute %s has no term' % name)
    return t


def state_term(a, b, c, d, z=Z_):
    n = a.shape[0]
    if n == 0:
        return d
    r = tm.arith('sub', tm.arith('mul', z, tm.eye(n)), a)
    return tm.arith('add', d, tm.matmul(c, tm.solve(r, b, b.shape)))


def abcd(I, v, s):
    return [mterm(I, v, s, k) for k in 'abcd']


def rows(v, s):
    """list-of-lists (or tuple) value -> python nested list"""
    h = s.heap.get(v.id) if isinstance(v, R) else None
    if isinstance(h, HList) and h.items is not None:
        return list(h.items)
    if isinstance(v, Tu):
        return list(v.items)
    return None


def numden(I, v, s, which):
    """[[tuple of coefficient terms]] of a Transfer"""
    x = attr(I, v, s, which)
    if isinstance(x, (A, N, C)):
        t = term(x, s)
        if t is None or t.shape is None or not tm.conc(t.shape):
            raise Undecided('%s has no term' % which)
        return [[tm.entries(t)]]
    rs = rows(x, s)
    if rs is None:
        raise Undecided('%s has no known structure' % which)
    out = []
    for r in rs:
        es = rows(r, s)
        if es is None:
            raise Undecided('%s has no known structure' % which)
        line = []
        for e in es:
            t = term(e, s)
            if t is None or t.shape is None or not tm.conc(t.shape):
                raise Undecided('%s entry has no term' % which)
            line.append(tm.entries(t))
        out.append(line)
    return out


def transfer_term(num, den, z=Z_):
    p, m = len(num), len(num[0])
    es = []
    for i in range(p):
        for j in range(m):
            es.append(tm.arith('div', horner(num[i][j], z), horner(den[i][j], z)))
    return tm.lit(es, (p, m))


def gz(I, v, s, z=Z_):
    """transfer matrix of a model, array or number, as a 2-D term"""
    k = cls_of(v, s)
    if k == 'State':
        return state_term(*abcd(I, v, s), z=z)
    if k == 'Transfer':
        n, d = numden(I, v, s, 'num'), numden(I, v, s, 'den')
        if len(n) != len(d) or any(len(x) != len(y) for x, y in zip(n, d)):
            raise Undecided('num and den differ in structure')
        return transfer_term(n, d, z)
    t = term(v, s)
    if t is None or t.shape is None or not tm.conc(t.shape):
        raise Undecided('no term')
    if t.shape == ():
        return tm.lit([t], (1, 1))
    if len(t.shape) == 1:
        return tm.reshape(t, (1,) + t.shape)
    return t


# ------------------------------------------------------ comparison on a path
def _leafdef(a, b, defs):
    """record leaf a := b (or the other way round)"""
    if a.shape != () and a.shape == b.shape and tm.conc(a.shape) and ('lit' in (a.op, b.op)):
        for x, y in zip(tm.entries(a), tm.entries(b)):
            if x is not y and not (ext.ident(x, y) is True) and not _leafdef(x, y, defs):
                return False
        return True
    for x, y in ((a, b), (b, a)):
        if x.op == 'gather' and x.shape == () and x.args[0].op == 'leaf' and len(x.args[1]) == 1 and y.shape == ():
            # one entry of an array of data
            L, i = x.args[0], x.args[1][0]
            if any(l.args[0] == L.args[0] for l in tm.leaves(y)):
                continue
            nm = L.args[0]
            parts = [tm.leaf('%s!%d' % (nm, k), ()) for k in range(tm.nelem(L.shape))]
            if nm not in defs:
                defs[nm] = tm.lit(parts, L.shape)
            elif defs[nm] is not tm.lit(parts, L.shape):
                continue
            x = parts[i]
        if x.op == 'leaf' and x.args[0] not in defs and x.shape is not None and tm.conc(x.shape):
            if y.shape != x.shape:
                if y.shape != ():
                    continue
                y = tm.full(y, x.shape)
            if not any(l.args[0] == x.args[0] for l in tm.leaves(y)):
                defs[x.args[0]] = y
                return True
    return False


def _special(c, pol, defs):
    """make the model satisfy a condition that does not hold in general position"""
    if c.op == 'not':
        return _special(c.args[0], not pol, defs)
    if c.op != 'uf':
        return False
    k = c.args[0]
    if k == 'eq' and pol:
        return _leafdef(c.args[1], c.args[2], defs)
    if k in ('any', 'all'):
        t = c.args[1]
        if t.op == 'lit' and pol == (k == 'all'):
            return all(ext.generic_truth(e) is pol or _special(e, pol, defs) for e in t.args if e.op != 'const')
        if k == 'any' and not pol and t.op == 'leaf':
            return _leafdef(t, tm.ZERO, defs)
        return False
    if k == 'cond' and c.args[1] in ('close', 'aeq') and pol:
        return _leafdef(c.args[2], c.args[3], defs)
    if k == 'lt' and pol and c.args[1].op == 'uf' and c.args[1].args[0] == 'abs':
        return _leafdef(c.args[1].args[1], tm.ZERO, defs)
    if k == 'lt' and not pol and c.args[2].op == 'uf' and c.args[2].args[0] == 'abs':
        return _leafdef(c.args[2].args[1], tm.ZERO, defs)
    return False


def _open(c):
    """an inequality between data: holds on a set with interior or not at all"""
    if c.op == 'not':
        return _open(c.args[0])
    if c.op != 'uf':
        return False
    if c.args[0] in ('any', 'all'):
        t = c.args[1]
        return all(_open(e) or e.op == 'const' for e in t.args) if t.op == 'lit' else _open(t)
    return c.args[0] in ('lt', 'le', 'alt', 'ale', 'agt', 'age')


def path_defs(s):
    """(defs, exact): definitions of leaves that make the data satisfy the
    equalities assumed on the path; exact is False when one of them cannot be
    expressed, a mismatch is then no evidence"""
    defs, exact = {}, True
    for c, pol in s.assume.items():
        if c.op == 'uf' and c.args[0] == 'mayraise':
            continue
        g = ext.generic_truth(c)
        if g is not None:
            if g != pol and not _special(c, pol, defs):
                exact = False
        elif not _open(c):
            exact = False
    return defs, exact


# factorizations are not unique: a value written with one is comparable only with values written with the same one
FACTORS = ('schur_t', 'schur_z', 'cschur_t', 'cschur_z', 'qz_aa', 'qz_bb', 'qz_q', 'qz_z', 'lu_p', 'lu_l',
           'lu_u', 'eigh_w', 'eigh_v', 'eig_vl', 'chol')


def opaque(t, ufs):
    return {x for x in tm.walk(t) if x.op == 'uf' and x.args[0] in FACTORS and x.args[0] not in ufs}


def agree(s, a, b, defs=None, ufs=None):
    """True / False / None: the two terms denote the same value on this path"""
    if a is b:
        return True
    d, exact = path_defs(s)
    if defs:
        d.update(defs)
    try:
        r = tm.same(a, b, d, dict(tm.EXACT, **(ufs or {})))
    except ZeroDivisionError:
        return None
    if r is False and (not exact or opaque(a, ufs or {}) != opaque(b, ufs or {})):
        return None
    return r


# ------------------------------------------------------------------- expected
def scal(g):
    return tm.entries(g)[0]


def bin_term(o, g, h, elementwise):
    """expected transfer matrix of `g o h`; None when not conformable"""
    if o in ('add', 'sub') or (o == 'mul' and elementwise):
        if bshape(g.shape, h.shape) is None:
            return None
        return tm.arith(o, g, h)
    if o == 'truediv':
        if h.shape == (1, 1):
            return tm.arith('div', g, scal(h))
        if h.shape[0] != h.shape[1]:
            return None
        hi = tm.solve(h, tm.eye(h.shape[0]), h.shape)
        if g.shape == (1, 1):
            return tm.arith('mul', scal(g), hi)
        return tm.matmul(g, hi) if g.shape[1] == h.shape[0] else None
    if g.shape[1] == h.shape[0]:
        return tm.matmul(g, h)
    if g.shape == (1, 1):
        return tm.arith('mul', scal(g), h)
    if h.shape == (1, 1):
        return tm.arith('mul', g, scal(h))
    return None


def value_pred(I, want, what='the result', extra=None):
    """predicate: the returned model has the transfer matrix want"""
    def pred(v, t):
        if cls_of(v, t) not in ('State', 'Transfer') and not isinstance(v, (A, N, C)):
            return None, 'result is not a model'
        g = gz(I, v, t)
        if g.shape != want.shape:
            return None, 'shape %s' % (g.shape,)
        r = agree(t, g, want, *(extra or ()))
        if r:
            return True, 'same transfer matrix'
        if r is None:
            return ('skip', 'special data') if not path_defs(t)[1] else (None, 'not comparable')
        return False, 'the transfer matrix of %s is wrong' % what
    return pred
