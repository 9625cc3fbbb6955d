"""C02 models with different sampling periods never combine."""
from .ops import *

RULE = ('guard analysis: every binary operation and feedback connection is interpreted on conformable operands with '
        'different sampling periods (none vs. number, two numbers, two abstract numbers); every path has to end in '
        'ValueError, except paths that established the two periods to be exactly equal')
ANCHORS = ('State', 'Transfer', 'feedback')
MIN = {'quick': 800}
PAIRS = [(0.5, 0.25), (None, 0.5), (0.5, None), ('T', 'T2'), (1e-9, 2e-9)]


def cases(tier):
    out = []
    sh = SHAPES if tier == 'thorough' else [(1, 1), (2, 2), (1, 2), (2, 1)]
    for pl, pr in PAIRS:
        for o in BIN:
            for l in models(pl, sh):
                for r in models(pr, sh):
                    if bin_expect(o, l, r)[0] in ('must', 'either'):
                        out.append(('bin', o, l, r))
        for l in models(pl, sh):
            for r in models(pr, sh):
                if oshape(l) == oshape(r)[::-1]:
                    out.append(('fb', 'feedback', l, r))
    return out


def name(c):
    if c[0] == 'bin':
        return bin_name(*c[1:])
    return 'feedback(%s, %s)' % (sname(c[2]), sname(c[3]))


def run_case(I, s, c):
    k, o, l, r = c
    if k == 'bin':
        rs = do_bin(I, s, o, l, r)
        where = bin_where(o, l, r)
    else:
        a, s = build(I, s, l, 'a')
        b, s = build(I, s, r, 'b')
        rs = call(I, 'feedback', [a, b], {}, s)
        where = 'harold/_bd_algebra.py:feedback'
    da, db = dtval(odt(l)), dtval(odt(r))
    V = Verdict()
    for v, t in rs:
        if isinstance(v, Raise):
            if v.may or not definite(t):
                V.und('imprecise')
            elif isexc(v.exc, ('ValueError',)):
                V.ok()
            else:
                V.bad('mismatched sampling periods give %s' % rdesc(v, I), construct(I, v))
        elif not definite(t):
            V.und('imprecise path')
        elif eqv(da, db, t) is True:
            pass
        else:
            V.bad('models with periods %s and %s are combined without an error' % (odt(l), odt(r)), where)
    return res(name(c), V, where)
