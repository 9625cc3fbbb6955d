"""C04 the input/output shape of a result follows the algebra."""
from .ops import *

RULE = ('shape inference: every operation is interpreted on all operand kinds with shapes up to 2x3; conformable operands '
        'have to give a model of the algebraic shape (broadcast for single-channel operands, inner-dimension rule for '
        'products), non-conformable ones have to end in ValueError on every path')
ANCHORS = ('State', 'Transfer', 'feedback', 'state_to_transfer', 'transfer_to_state', 'minimal_realization',
           'kalman_decomposition', 'hessenberg_realization', 'discretize', 'undiscretize', 'random_state_model')
MIN = {'quick': 2000}


def cases(tier):
    out = []
    ms = models('T', SHAPES)
    for o in BIN:
        for l in ms + plain():
            for r in ms + plain():
                if (ismodel(l) or ismodel(r)) and bin_expect(o, l, r)[0] != 'skip':
                    out.append(('bin', o, l, r))
    out += [('bin',) + x for x in with_vectors(ms) if bin_expect(*x)[0] != 'skip']
    for p in producers():
        out.append(('prod', p))
    for p in feedbacks('T'):
        out.append(('prod', p))
    for l in ms:
        for r in ms:
            a, b = oshape(l), oshape(r)
            if a != b[::-1] and not single(l) and not single(r):
                out.append(('fbx', l, r))
    return out


def name(c):
    if c[0] == 'bin':
        return bin_name(*c[1:])
    if c[0] == 'fbx':
        return 'feedback(%s, %s)' % (sname(c[1]), sname(c[2]))
    return c[1].label


def run_case(I, s, c):
    if c[0] == 'bin':
        _, o, l, r = c
        rs = do_bin(I, s, o, l, r)
        mode, shape = bin_expect(o, l, r)
        where = bin_where(o, l, r)
        if o == 'truediv' and mode == 'must' and not ismodel(r):
            mode = 'must'
    elif c[0] == 'fbx':
        _, l, r = c
        a, s = build(I, s, l, 'a')
        b, s = build(I, s, r, 'b')
        rs = call(I, 'feedback', [a, b], {}, s)
        mode, shape, where = 'raise', None, 'harold/_bd_algebra.py:feedback'
    else:
        p = c[1]
        rs = do_producer(I, s, p)
        mode, shape, where = p.mode, p.shape, p.where

    def pred(v, t):
        if cls_of(v, t) not in ('State', 'Transfer'):
            return False, 'the result is not a model'
        sh = shape_of(I, v, t)
        if sh is None or None in sh:
            return None, 'shape unknown'
        if sh == shape:
            return True, 'shape %sx%s' % shape
        return False, 'the result has shape %s instead of %s' % (sh, shape)

    V = judge(I, rs, pred, {'must': 'return', 'either': 'either', 'raise': 'raise'}[mode], where=where)
    return res(name(c), V, where)
