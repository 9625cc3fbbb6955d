"""State data in general position within a given Kalman structure."""
from .formula import *
from .c15 import orth, mm

tr = tm.transpose
# (controllable and observable, controllable only, observable only, neither)
STRUCT = {1: ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)),
          2: ((2, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (0, 1, 1, 0), (0, 2, 0, 0), (0, 0, 2, 0)),
          3: ((3, 0, 0, 0), (2, 1, 0, 0), (2, 0, 1, 0), (1, 1, 1, 0), (1, 0, 2, 0), (1, 2, 0, 0))}


def blocks(name, rs, cs, zero):
    """matrix of leaves with zero blocks"""
    R_ = [i for i, k in enumerate(rs) for _ in range(k)]
    C_ = [i for i, k in enumerate(cs) for _ in range(k)]
    es = []
    for i, bi in enumerate(R_):
        for j, bj in enumerate(C_):
            es.append(tm.ZERO if zero(bi, bj) else tm.leaf('%s%d%d' % (name, i, j), ()))
    return tm.lit(es, (len(R_), len(C_)))


def data(st, p, m, turn=True):
    """(A, B, C) terms"""
    n = sum(st)
    keep = {(0, 0), (0, 2), (1, 0), (1, 1), (1, 2), (1, 3), (2, 2), (3, 2), (3, 3)}
    a = blocks('a', st, st, lambda i, j: (i, j) not in keep)
    b = blocks('b', st, (m,), lambda i, j: i > 1)
    c = blocks('c', (p,), st, lambda i, j: j not in (0, 2))
    if turn and n > 1 and max(st) < n:
        q = orth('q', n)
        a, b, c = mm(q, a, tr(q)), mm(q, b), mm(c, tr(q))
    return a, b, c


def arr(s, t, kind='float'):
    return s.new_arr(t, kind, t.shape)


def state(I, s, st, p, m, dt=None, d=None, turn=True):
    a, b, c = data(st, p, m, turn)
    d = tm.leaf('D', (p, m)) if d is None else d
    kw = {'dt': C(dt)} if dt is not None else {}
    g, b0 = I.general, I.eqbudget
    I.general, I.eqbudget = False, 0
    v, s = good(call(I, 'State', [arr(s, x) for x in (a, b, c, d)], kw, s), 'State')
    I.general, I.eqbudget = g, b0
    return v, s


def krylov(a, b):
    out = [b]
    for i in range(1, a.shape[0]):
        out.append(mm(a, out[-1]))
    return tm.concat(out, 1, (b.shape[0], b.shape[1] * a.shape[0]))


def rank(st, which):
    return st[0] + (st[1] if which == 'c' else st[2])


def known(v, s, sh):
    """term of the value, or a verdict"""
    t = term(v, s)
    if t is None or t.shape is None or not tm.conc(t.shape):
        raise Undecided('a returned matrix has no term')
    return t


def offdiag(t):
    k = t.shape[0]
    return tm.lit([tm.entries(t)[i * k + j] for i in range(k) for j in range(k) if i != j], (k * k - k,))


class Facts:
    """conjunction of equations"""

    def __init__(self, t):
        self.t, self.r, self.msg = t, True, ''

    def eq(self, x, y, msg):
        if self.r is False:
            return
        if x.shape != y.shape:
            self.r, self.msg = False, '%s (shape %s instead of %s)' % (msg, x.shape, y.shape)
            return
        r = agree(self.t, x, y)
        if r is False:
            self.r, self.msg = False, msg
        elif r is None:
            self.r, self.msg = None, 'not comparable: ' + msg

    def true(self, ok, msg):
        if self.r is not False and not ok:
            self.r, self.msg = ok, msg

    def done(self):
        return self.r, self.msg
