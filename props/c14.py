"""C14 simulated responses are the sampled state recursion."""
from .simul import *

RULE = ('value numbering: sample k of the simulated output is C x_k + D u_k with x_{k+1} = F x_k + G u_k, (F, G) the zero-order-hold '
        'equivalent of a continuous model or the matrices of a discrete one, x_0 the given initial condition; per channel each '
        'slice uses one input; step and impulse responses use the unit step and the pulse of height 1/dt')
ANCHORS = ('simulate_linear_system', 'simulate_step_response', 'simulate_impulse_response')
MIN = {'quick': 150}
CASE_SECONDS = 60


def cases(tier):
    out = []
    for g in specs():
        st = g[0] == 'S'
        n = g[1] if st else 0
        p, m = oshape(g)
        for K in (2, 3):
            for per in (False, True):
                for x0 in ((None, 'arr') if st else (None,)):
                    out.append(('lin', g, K, '2d', 't', x0, per))
        out.append(('lin', g, 2, 'int', 't', None, False))
        if m == 1:
            out += [('lin', g, 3, '1d', 't', None, False), ('lin', g, 2, 'list', 't', None, False)]
        else:
            out.append(('lin', g, 2, 'nested', 't', None, False))
        if st:
            out += [('lin', g, 2, '2d', 't', f, False) for f in ('list', 'col', 'row')]
        if odt(g):
            out += [('lin', g, K, '2d', None, None, per) for K in (1, 2, 3) for per in (False, True)]
            if st:
                out.append(('lin', g, 1, '2d', None, 'arr', False))
        for k in ('step', 'impulse'):
            out += [(k, g, K, None, 't', None, True) for K in (2, 3)]
            out.append((k, g, 3, None, 'list', None, True))
    return out


def name(c):
    k, g, K, u, t, x0, per = c
    if k != 'lin':
        return 'simulate_%s_response(%s, t=%s%d)' % (k, sname(g), '' if t == 't' else 'list', K)
    return 'simulate_linear_system(%s, u=%s%d%s%s%s)' % (sname(g), u, K, '' if t else ', no t', ', x0=%s' % x0 if x0 else '',
                                                      ', per_channel' if per else '')


def setup_call(I, s, c):
    """(outcomes, model, state before the call, inputs, x0, times, given time value)"""
    k, g, K, uf, tf, x0f, per = c
    a, s = build(I, s, g, 'a')
    dt, (p, m) = odt(g), oshape(g)
    h = H_ if dt is None else T_
    tv, ts = (None, None)
    kw = {}
    if tf:
        tv, ts = times(s, K, dt, 'list' if tf == 'list' else 'arr')
        kw['t'] = tv
    else:
        ts = [tm.arith('mul', tm.const(i), h) for i in range(K)]
    x0 = [tm.ZERO] * (g[1] if g[0] == 'S' else 8)
    if k == 'lin':
        u, us = inputs(s, K, m, uf)
        kw['u'] = u
        if x0f:
            kw['x0'], x0 = initial(s, g[1], x0f)
        if per:
            kw['per_channel'] = C(True)
    else:
        one = tm.ONE if k == 'step' else tm.arith('div', tm.ONE, h)
        us = [[one if k == 'step' or i == 0 else tm.ZERO for j in range(m)] for i in range(K)]
    I.eqbudget = 0
    f = 'simulate_linear_system' if k == 'lin' else 'simulate_%s_response' % k
    return call(I, f, [a], kw, s), a, s, us, x0, ts, tv, h, WS + f


def run_case(I, s, c):
    k, g, K, uf, tf, x0f, per = c
    rs, a, s, us, x0, ts, tv, h, where = setup_call(I, s, c)
    if cls_of(a, s) == 'Transfer' and not g[0] == 'Tg':
        b, s2 = good(call(I, 'transfer_to_state', [a], {}, s))
        x0 = [tm.ZERO] * abcd(I, b, s2)[0].shape[0]
    want = wanted(I, a, s, g, us, x0, h, per)

    def pred(v, t):
        y = pair(v, t)
        if y is None or y[0] is None or y[0].shape is None or not tm.conc(y[0].shape):
            return None, 'unknown response'
        e = tm.entries(y[0])
        if len(e) != len(want):
            return None, 'shape %s' % (y[0].shape,)
        r = agree(t, tm.lit(e, (len(e),)), tm.lit(want, (len(e),)))
        if r is None:
            return ('skip', 'special data') if not path_defs(t)[1] else (None, 'not comparable')
        return (r, 'same samples') if r else (False, 'the response is not that of the sampled model')
    return res(name(c), judge_values(I, rs, pred, where), where)
