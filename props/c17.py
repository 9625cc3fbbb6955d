"""C17 State arithmetic agrees with the algebra of transfer matrices."""
from .formula import *

RULE = ('value numbering: the transfer matrix D + C(zI-A)^-1 B of the operands and of the result are compared as rational '
        'functions by random interpretation in a finite field; the result has to equal the sum, difference, product or '
        'quotient of the operand matrices on every definite path')
ANCHORS = ('State', 'Transfer', 'transfer_to_state')
MIN = {'quick': 400}
SH = [(1, 1), (2, 2), (1, 2), (2, 1), (2, 3)]


def operands():
    ms = models('T', SH) + [('S', 1, 1, 1, 'T'), ('S', 3, 2, 2, 'T')]
    return ms, [('f',), ('i',), ('arr', (1, 1)), ('arr', (2, 2)), ('arr', (1, 2)), ('arr', (2, 1)), ('arr', (3, 2)), ('arr', (2, 3))]


def cases(tier, state=True):
    ms, pl = operands()
    out = []
    for o in BIN:
        for l in ms + pl:
            for r in ms + pl:
                if not (ismodel(l) or ismodel(r)):
                    continue
                if (isstate(l) or isstate(r)) != state:
                    continue
                if bin_expect(o, l, r)[0] in ('must', 'either'):
                    out.append((o, l, r))
    for x in with_vectors(ms):
        if (isstate(x[1]) or isstate(x[2])) == state and bin_expect(*x)[0] in ('must', 'either'):
            out.append(x)
    for l in ms + pl:
        for r in (('T', 1, 1, 'T', (3, 3)), ('T', 2, 2, 'T', (2, 2))):
            if (isstate(l) or isstate(r)) == state and bin_expect('truediv', l, r)[0] in ('must', 'either'):
                out.append(('truediv', l, r))
    for m in ms:
        if isstate(m) == state:
            out.append(('neg', m, None))
    return out


def name(c):
    if c[0] == 'neg':
        return '-' + sname(c[1])
    return bin_name(*c)


def run_case(I, s, c):
    o, l, r = c
    a, s = build(I, s, l, 'a')
    g = gz(I, a, s)
    if o == 'neg':
        rs = I.unary('neg', a, s, None)
        want, where = tm.neg(g), 'harold/_classes.py:%s.__neg__' % ('State' if isstate(l) else 'Transfer')
    else:
        b, s = build(I, s, r, 'b')
        h = gz(I, b, s)
        elem = not (isstate(l) or isstate(r))
        want = bin_term(o, g, h, elem)
        where = bin_where(o, l, r)
        if want is None:
            raise Undecided('no expectation')
        rs = I.binop({'truediv': 'div'}.get(o, o), a, b, s, None)
    V = judge_values(I, rs, value_pred(I, want), where)
    return res(name(c), V, where)
