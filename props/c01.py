"""C01 the sampling period is carried by every model derived from another."""
from .ops import *

RULE = ('sampling-period dataflow: every model-producing operation is interpreted on operands whose sampling period is an '
        'abstract positive number T (or none); on every returning path the public SamplingPeriod of the result has to be '
        'the very value T (none for none), for all operand kinds and shapes up to 2x3 and two states')
ANCHORS = ('State', 'Transfer', 'feedback', 'state_to_transfer', 'transfer_to_state', 'minimal_realization',
           'kalman_decomposition', 'hessenberg_realization', 'discretize', 'undiscretize', 'random_state_model')
MIN = {'quick': 1500}


def cases(tier):
    out = []
    for dt in ('T', None):
        sh = SHAPES if dt == 'T' or tier == 'thorough' else [(1, 1), (2, 2)]
        ms = models(dt, sh)
        for o in BIN:
            for l in ms + plain(sh):
                for r in ms + plain(sh):
                    if (ismodel(l) or ismodel(r)) and bin_expect(o, l, r)[0] in ('must', 'either'):
                        out.append(('bin', o, l, r))
    out += [('bin',) + x for x in with_vectors(models('T', SHAPES)) if bin_expect(*x)[0] in ('must', 'either')]
    for p in producers():
        out.append(('prod', p))
    for p in feedbacks('T'):
        out.append(('prod', p))
    return out


def name(c):
    if c[0] == 'bin':
        return bin_name(*c[1:])
    return c[1].label


def run_case(I, s, c):
    if c[0] == 'bin':
        _, o, l, r = c
        rs = do_bin(I, s, o, l, r)
        dt = odt(l) if ismodel(l) else odt(r)
        where = bin_where(o, l, r)
    else:
        p = c[1]
        rs = do_producer(I, s, p)
        dt, where = p.dt, p.where

    def pred(v, t):
        if cls_of(v, t) not in ('State', 'Transfer'):
            return None, 'result is not a model'
        d = attr(I, v, t, 'SamplingPeriod')
        e = eqv(d, dtval(dt), t)
        if e is None:
            return None, 'period unknown'
        return e, ('period %s' % dt if e else 'the result has sampling period %s, not %s' % (show(d), dt))

    V = judge_values(I, rs, pred, where)
    return res(name(c), V, where)
