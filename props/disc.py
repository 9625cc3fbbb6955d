"""Discretization: the documented maps between s and z."""
from .formula import *

TUSTIN = ('tustin', 'bilinear', 'trapezoidal')
FORWARD = ('forward euler', 'forward difference', 'forward rectangular', '>>')
BACKWARD = ('backward euler', 'backward difference', 'backward rectangular', '<<')
METHODS = ('zoh', 'foh') + TUSTIN + FORWARD + BACKWARD + ('lft',)
W = 'harold/_discrete_funcs.py:'
T_ = tm.leaf('T', (), ('pos',))
PW = tm.leaf('pw', (), ('pos',))
PI = ext.PI.term


def shapes():
    out = [('S', n, p, m, None) for n in (1, 2) for p, m in ((1, 1), (2, 2), (1, 2), (2, 1))]
    return out + [('S', 3, 2, 3, None), ('S', 2, 1, 1, None, 'D0'), ('Sg', 2, 2, None), ('Sg', 1, 1, None)]


def tshapes():
    return [('T', 1, 1, None, d) for d in ((1, 2), (2, 3), (2, 2), (3, 3))] + [('T', 1, 2, None, (1, 2)), ('T', 2, 1, None, (2, 2)),
                                                                              ('Tg', 1, 1, None), ('Tg', 2, 2, None)]


def qarr(s):
    return Aent(s, 'q', (2, 2))


def s_of_z(method, prewarp=False, z=Z_, q=None, T_=T_, PW=PW):
    """the documented substitution s(z) of an algebraic method"""
    if method == 'lft':
        q11, q12, q21, q22 = tm.entries(q)
        # 1/s = q22 + q21 1/z (1 - q11/z)^-1 q12
        return tm.arith('div', tm.ONE, tm.arith('add', q22, tm.arith('div', tm.arith('mul', q21, q12), tm.arith('sub', z, q11))))
    one = tm.ONE
    d = tm.arith('sub', z, one)
    if method in FORWARD:
        return tm.arith('div', d, T_)
    if method in BACKWARD:
        return tm.arith('div', d, tm.arith('mul', T_, z))
    k = tm.arith('div', tm.const(2), T_)
    if prewarp:
        w = tm.arith('mul', tm.arith('mul', tm.const(2), PI), PW)
        k = tm.arith('div', w, tm.uf('tan', (tm.arith('div', tm.arith('mul', w, T_), tm.const(2)),), ()))
    return tm.arith('div', tm.arith('mul', k, d), tm.arith('add', z, one))



def hold(method, a, b, c, d):
    """transfer matrix of the hold equivalents, from exp(AT) alone"""
    n = a.shape[0]
    ar, I_ = tm.arith, tm.eye(n)
    F = tm.uf('expm', (ar('mul', a, T_),), a.shape)
    inv = lambda x: tm.solve(a, x, x.shape)
    g1 = inv(tm.matmul(ar('sub', F, I_), b))
    if method == 'zoh':
        return state_term(F, g1, c, d)
    g2 = ar('div', inv(inv(tm.matmul(ar('sub', ar('sub', F, I_), ar('mul', a, T_)), b))), T_)
    return state_term(F, ar('sub', ar('add', g1, tm.matmul(F, g2)), g2), c, ar('add', d, tm.matmul(c, g2)))


def args_of(I, s, method, prewarp):
    kw = {'method': C(method)}
    if prewarp:
        kw['prewarp_at'] = N('float', PW)
    q = None
    if method == 'lft':
        kw['q'] = qarr(s)
        q = term(kw['q'], s)
    return kw, q


def mname(m, pw):
    return repr(m) + (', prewarp' if pw else '')


def methods():
    return [(m, False) for m in METHODS] + [(m, True) for m in TUSTIN]
