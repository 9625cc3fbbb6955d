"""C20 valid calls never end in an internal error."""
from .calls import *
from .c05 import fname

RULE = ('exception-escape analysis: for every catalogued call with well-formed arguments no definite path may end in an '
        'exception of the internal kind (AttributeError, NameError/UnboundLocalError, TypeError, IndexError, KeyError, '
        'ZeroDivisionError, RecursionError) that is not raised by a raise statement of the library')
ANCHORS = ('State', 'Transfer', 'feedback', 'system_norm', 'frequency_response', 'simulate_linear_system', 'lqr', 'ackermann')
MIN = {'quick': 700}
CASE_SECONDS = 60


def cases(tier):
    return catalogue(tier)


def name(c):
    return c.label if not c.kind else '%s [%s]' % (c.label, c.kind)


def run_case(I, s, c):
    av, kv, s = prepare(I, s, c)
    rs = invoke(I, s, c, av, kv)
    V = Verdict()
    for v, t in rs:
        if isinstance(v, Raise) and isexc(v.exc, IMPLICIT) and not v.explicit:
            if v.may:
                continue
            if not definite(t):
                V.und('%s on an imprecise path' % v.exc)
            else:
                V.bad('raises %s' % rdesc(v, I), construct(I, v))
        else:
            V.ok()
    return res(name(c), V, fname(c))
