"""C03 the representation of a result."""
from .ops import *

RULE = ('kind analysis: every arithmetic operation, connection and conversion is interpreted on all operand kinds; on '
        'every returning path the class of the result must be State as soon as one operand is a state model and Transfer '
        'otherwise (conversions: the target class; realization tools: the class of their argument)')
ANCHORS = ('State', 'Transfer', 'feedback', 'state_to_transfer', 'transfer_to_state', 'minimal_realization',
           'kalman_decomposition', 'hessenberg_realization', 'discretize', 'undiscretize', 'random_state_model')
MIN = {'quick': 1500}


def cases(tier):
    out = []
    ms = models('T', SHAPES)
    for o in BIN:
        for l in ms + plain():
            for r in ms + plain():
                if (ismodel(l) or ismodel(r)) and bin_expect(o, l, r)[0] in ('must', 'either'):
                    out.append(('bin', o, l, r))
    for p in producers():
        out.append(('prod', p))
    for p in feedbacks('T'):
        out.append(('prod', p))
    for p in feedbacks(None, [(1, 1), (2, 2)]):
        out.append(('prod', p))
    return out


def name(c):
    if c[0] == 'bin':
        return bin_name(*c[1:])
    return c[1].label


def run_case(I, s, c):
    if c[0] == 'bin':
        _, o, l, r = c
        rs = do_bin(I, s, o, l, r)
        kind = kind_expect(l, r)
        where = bin_where(o, l, r)
    else:
        p = c[1]
        rs = do_producer(I, s, p)
        kind, where = p.kind, p.where

    def pred(v, t):
        k = cls_of(v, t)
        if k == kind:
            return True, kind
        return False, 'the result is %s, not a %s' % (k or show(v), kind)

    V = judge_values(I, rs, pred, where)
    return res(name(c), V, where)
