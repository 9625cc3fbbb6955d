"""C13 shape and time vector of simulations; unusable arguments are rejected."""
from .c14 import *
from . import c14
from .c06 import storage

RULE = ('shape inference and value numbering: the response has one row per sample, (samples, outputs) or (samples, outputs, inputs) '
        'per channel with more than one input; the returned time vector has the given values, or k*dt when none is given, in storage '
        'of its own; arguments that do not fit the model have only ValueError paths')
MIN = {'quick': 200}
CASE_SECONDS = 60
BADT = {'uneven': (0., .1, .3), 'decreasing': (.3, .2, .1), 'constant': (.1, .1, .1), 'wrong period': (0., .3, .6), 'short': (0., .25),
        'long': (0., .25, .5, .75), 'slightly uneven': (0., .25, .51), 'uneven later': (0., .25, .5, .8), 'half the period': (0., .125, .25),
        'twice the period': (0., .5, 1.), 'period off by 4%': (0., .26, .52)}


def cases(tier):
    out = [('geo',) + c for c in c14.cases(tier)]
    for g in specs((None, 0.25)):
        p, m = oshape(g)
        dt = odt(g)
        if g[0] == 'S' and (g[1] == 3 or len(g) > 5):
            continue
        for f in ('simulate_linear_system', 'simulate_step_response', 'simulate_impulse_response'):
            for b in BADT:
                if f != 'simulate_linear_system' and b in ('short', 'long') or dt is None and 'period' in b:
                    continue
                out.append(('bad', g, f, b))
        out += [('bad', g, 'simulate_linear_system', b) for b in ('more inputs', 'u 3d', 't 2d', 't one', 't empty', 't and u empty')]
        if dt:
            out.append(('bad', g, 'simulate_linear_system', 'u empty'))
        if m > 1:
            out += [('bad', g, 'simulate_linear_system', b) for b in ('fewer inputs',)]
        if dt is None:
            out.append(('bad', g, 'simulate_linear_system', 'no t'))
        if g[0] == 'S':
            out += [('bad', g, 'simulate_linear_system', b) for b in ('x0 long', 'x0 2d')]
            if g[1] > 1:
                out.append(('bad', g, 'simulate_linear_system', 'x0 short'))
        else:
            out.append(('bad', g, 'simulate_linear_system', 'x0'))
        out += [('bad', g, f, 't one') for f in ('simulate_step_response', 'simulate_impulse_response')]
        out += [('bad', g, f, 't empty') for f in ('simulate_step_response', 'simulate_impulse_response')]
    return out


def name(c):
    if c[0] == 'geo':
        return c14.name(c[1:])
    return '%s(%s) with %s' % (c[2], sname(c[1]), ('time ' if c[3] in BADT else '') + c[3])


def bad_call(I, s, g, f, b):
    a, s = build(I, s, g, 'a')
    p, m = oshape(g)
    dt, K = odt(g), 4 if b == 'uneven later' else 3
    kw = {}
    tt = BADT.get(b) or (0., .25, .5)
    if b == 't one':
        tt = (0.,)
        K = 1
    if b in ('t empty', 't and u empty'):
        tt = ()
    if 'u empty' in b:
        K = 0
    if b == 't 2d':
        kw['t'] = Aent(s, 't', (3, 2))
    elif b not in ('no t', 'u empty'):
        kw['t'] = s.new_arr(tm.lit([tm.const(x) for x in tt], (len(tt),)), 'float', (len(tt),))
    if f == 'simulate_linear_system':
        if b == 'u 3d':
            kw['u'] = Aent(s, 'u', (3, 2, 2))
        else:
            kw['u'] = inputs(s, K, m + {'more inputs': 1, 'fewer inputs': -1}.get(b, 0))[0]
        n = g[1] if g[0] == 'S' else 1
        if b == 'x0 2d':
            kw['x0'] = Aent(s, 'x', (n + 1, 2))
        elif b.startswith('x0'):
            kw['x0'] = initial(s, n + {'x0 long': 1, 'x0 short': -1}.get(b, 0), 'arr')[0]
    I.eqbudget = 0
    return call(I, f, [a], kw, s)


def run_case(I, s, c):
    if c[0] == 'bad':
        _, g, f, b = c
        return res(name(c), judge(I, bad_call(I, s, g, f, b), None, must='raise', where=WS + f), WS + f)
    key, c = name(c), c[1:]
    k, g, K, uf, tf, x0f, per = c
    rs, a, s, us, x0, ts, tv, h, where = setup_call(I, s, c)
    mine = storage(tv, s) if tv is not None else {}
    sh = yshape(g, K, per)

    def pred(v, t):
        y = pair(v, t)
        if y is None:
            return False, 'not a pair (response, time)'
        if any(x is None or x.shape is None or not tm.conc(x.shape) for x in y):
            return None, 'unknown shape'
        if y[0].shape != sh:
            return False, 'the response has shape %s instead of %s' % (y[0].shape, sh)
        if y[1].shape != (K,):
            return False, 'the time vector has shape %s instead of (%d,)' % (y[1].shape, K)
        r = agree(t, y[1], tm.lit(ts, (K,)))
        if not r:
            return r, 'the time vector differs from the samples of the simulation'
        if set(storage(v.items[1], t)) & set(mine):
            return False, 'the time vector is the array of the caller'
        return True, 'shape and time as documented'
    return res(key, judge(I, rs, pred, where=where), where)
