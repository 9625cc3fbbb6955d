"""A catalogue of calls of the public functions with abstract arguments.

Used by the properties that quantify over the whole public interface
(arguments unmodified, ownership, internal errors, hidden state)."""
from .ops import *
from .rooted import rooted, FEW

Z = 'T'                      # the abstract sampling period


def spec_val(I, s, x, name):
    """argument from a spec -> (value, state)"""
    k = x[0] if isinstance(x, tuple) else None
    if k is None:
        return C(x), s
    if k == 'dt':
        return dtval(x[1]), s
    if k == 'M':                                       # matrix with one value number
        return A_(s, name, x[1], *x[2:]), s
    if k == 'Z':
        return s.new_arr(tm.zeros(x[1]), 'float'), s
    if k == 'I':
        return s.new_arr(tm.eye(x[1]), 'float'), s
    if k in ('tup', 'lst'):
        vs = []
        for i, e in enumerate(x[1]):
            v, s = spec_val(I, s, e, '%s%d' % (name, i))
            vs.append(v)
        return (Tu(vs) if k == 'tup' else s.new_list(vs)), s
    if k == 'dct':
        vs = []
        for i, (key, e) in enumerate(x[1]):
            v, s = spec_val(I, s, e, '%s%d' % (name, i))
            vs.append((C(key), v))
        return s.new_dict(vs), s
    if k == 'poly':                                    # list of coefficients
        return poly(s, name, x[1]), s
    if k == 'parr':                                    # coefficient vector
        es = [tm.leaf('%s_%d' % (name, i), (), ('nonzero',) if i == 0 else ()) for i in range(x[1])]
        sh = x[2] if len(x) > 2 else (x[1],)
        return s.new_arr(tm.lit(es, sh), 'float', sh), s
    if k == 'grid':                                    # increasing real vector
        return A_(s, name, (x[1],), 'float', ('nonzero', 'pos')), s
    if k == 'time':                                    # regular grid from zero
        h = tm.leaf('h', (), ('pos',)) if x[2] is None else tm.leaf(x[2], (), ('pos',))
        es = [tm.arith('mul', tm.const(i), h) for i in range(x[1])]
        return s.new_arr(tm.lit(es, (x[1],)), 'float'), s
    if k == 'RT':                                      # transfer model with known roots
        g, s, _, fx = rooted(I, s, (FEW[1:] + FEW[:1])[:x[1] * x[2]], x[1], x[2], x[3], name)
        I.factors = {'roots': fx}
        return g, s
    return build(I, s, x, name)


class Call:
    __slots__ = ('label', 'fn', 'args', 'kw', 'meth', 'where', 'kind')

    def __init__(self, fn, args, kw=None, meth=None, where='', kind=''):
        self.fn, self.args, self.kw, self.meth, self.where, self.kind = fn, args, kw or {}, meth, where, kind
        self.label = '%s(%s)' % (fn if meth is None else meth, ', '.join(
            [aname(a) for a in args] + ['%s=%s' % (k, aname(v)) for k, v in self.kw.items()]))


def aname(x):
    if not isinstance(x, tuple):
        return repr(x)
    k = x[0]
    if k == 'dt':
        return str(x[1])
    if k == 'RT':
        return 'Transfer(%dx%d%s) with common roots' % (x[1], x[2], ',dt' if x[3] else '')
    if k == 'M':
        return 'array%s' % 'x'.join(map(str, x[1])) + (':' + x[2] if len(x) > 2 and x[2] != 'float' else '')
    if k == 'Z':
        return 'zeros%s' % 'x'.join(map(str, x[1]))
    if k == 'I':
        return 'eye%d' % x[1]
    if k in ('tup', 'lst'):
        return ('(%s)' if k == 'tup' else '[%s]') % ','.join(aname(e) for e in x[1])
    if k == 'dct':
        return 'dict(%s)' % ', '.join(key for key, e in x[1])
    if k == 'poly':
        return 'list%d' % x[1]
    if k == 'parr':
        return 'coef%s' % ('x'.join(map(str, x[2])) if len(x) > 2 else x[1])
    if k in ('grid', 'time'):
        return '%s%d' % (k, x[1])
    return sname(x)


def prepare(I, s, c):
    """-> (function value, args, kw, state)"""
    av, kv = [], {}
    for i, x in enumerate(c.args):
        v, s = spec_val(I, s, x, 'abcdefgh'[i])
        av.append(v)
    for k, x in c.kw.items():
        kv[k], s = spec_val(I, s, x, k)
    return av, kv, s


HEAVY = ('bode_plot', 'nyquist_plot', 'step_response_plot', 'impulse_response_plot', 'system_norm', 'minimal_realization')


def invoke(I, s, c, av, kv):
    """outcomes of the call; long computations are analysed with fewer partitions"""
    cap, lim = I.cap, I.limit
    if any(isinstance(x, tuple) and x and x[0] == 'RT' for x in c.args):
        I.general, I.eqbudget, I.limit = True, 0, 4000000
        try:
            return invoke_(I, s, c, av, kv)
        finally:
            I.general, I.factors = False, {}
    if c.fn in HEAVY or (c.fn in ('frequency_response', 'simulate_step_response', 'simulate_impulse_response') and not kv):
        I.cap, I.limit = 4, 150000
    try:
        return invoke_(I, s, c, av, kv)
    finally:
        I.cap, I.limit = cap, lim


def invoke_(I, s, c, av, kv):
    if c.fn == 'getattr':
        return I.getattr_(av[0], c.meth, s, None)
    if c.fn == 'setattr':
        return I.setattr_(av[0], c.meth, av[1], s, None)
    if c.fn == 'method':
        return mcall(I, s, av[0], c.meth, av[1:], kv)
    if c.fn == 'binop':
        return I.binop(c.meth, av[0], av[1], s, None)
    if c.fn == 'static':
        out = []
        for f, t in I.getattr_(I.public(c.meth[0]), c.meth[1], s, None):
            out += [(f, t)] if isinstance(f, Raise) else I.call(f, list(av), dict(kv), t, None)
        return out
    return call(I, c.fn, av, kv, s)


def catalogue(tier='quick'):
    out = []

    def add(fn, *args, **kw):
        meth = kw.pop('_meth', None)
        out.append(Call(fn, args, kw, meth))

    S22, S11, S12, S21 = ('S', 2, 2, 2, None), ('S', 2, 1, 1, None), ('S', 2, 1, 2, None), ('S', 2, 2, 1, None)
    S22d, S11d = ('S', 2, 2, 2, Z), ('S', 2, 1, 1, Z)
    S3 = ('S', 3, 2, 3, None)
    T11, T22, T12, T11d, T22d = ('T', 1, 1, None), ('T', 2, 2, None), ('T', 1, 2, None), ('T', 1, 1, Z), ('T', 2, 2, Z)
    Sg1, Sg2, Tg1, Tg2 = ('Sg', 1, 1, None), ('Sg', 2, 2, None), ('Tg', 1, 1, None), ('Tg', 2, 2, None)
    Sgd, Tgd = ('Sg', 2, 2, Z), ('Tg', 2, 2, Z)
    dyn = [S11, S22, S12, S21, S11d, S22d, T11, T22, T12, T11d, T22d]
    allm = dyn + [Sg1, Sg2, Tg1, Tg2, Sgd, Tgd]
    M = lambda *sh: ('M', sh)
    # constructors
    add('State', M(2, 2), M(2, 1), M(1, 2))
    add('State', M(2, 2), M(2, 3), M(1, 2), M(1, 3))
    add('State', M(2, 2), M(2, 1), M(1, 2), 0.5)
    add('State', M(2, 2), M(2, 1), M(1, 2), dt=('dt', Z))
    add('State', M(2, 3))
    add('State', ('M', (2, 2), 'int'), ('M', (2, 1), 'int'), ('M', (1, 2), 'int'))
    add('State', ('lst', (('lst', (('f',), ('f',))), ('lst', (('f',), ('f',))))), ('lst', (('lst', (('f',),)), ('lst', (('f',),)))),
        ('lst', (('f',), ('f',))))
    add('State', ('f',), ('f',), ('f',), ('f',))
    add('Transfer', ('poly', 2), ('poly', 3))
    add('Transfer', ('parr', 2), ('parr', 3))
    add('Transfer', ('parr', 2, (1, 2)), ('parr', 3, (1, 3)))
    add('Transfer', ('parr', 1), ('parr', 3), dt=('dt', Z))
    add('Transfer', M(2, 2))
    add('Transfer', ('arr', (2, 3)))
    add('Transfer', ('arr', (2, 2)), ('arr', (2, 2)))
    add('Transfer', ('arr', (2, 2)), ('parr', 3))
    add('Transfer', ('f',), ('f',))
    add('Transfer', ('f',))
    add('Transfer', ('lst', (('lst', (('parr', 2), ('parr', 1))), ('lst', (('parr', 1), ('parr', 2))))),
        ('lst', (('lst', (('parr', 3), ('parr', 2))), ('lst', (('parr', 2), ('parr', 3))))))
    add('Transfer', ('lst', (('lst', (('poly', 2), ('poly', 1))),)), ('lst', (('lst', (('poly', 3), ('poly', 2))),)))
    add('Transfer', ('lst', (('lst', (('parr', 2), ('parr', 1))),)), ('parr', 3))
    add('static', M(2, 2), M(2, 1), M(1, 2), M(1, 1), _meth=('State', 'validate_arguments'))
    add('static', ('parr', 2), ('parr', 3), _meth=('Transfer', 'validate_arguments'))
    add('static', ('lst', (('lst', (('parr', 2), ('parr', 1))),)), ('lst', (('lst', (('parr', 3), ('parr', 2))),)),
        _meth=('Transfer', 'validate_arguments'))
    # arithmetic
    for o in ('add', 'sub', 'mul', 'matmul'):
        for l, r in ((S22, S22), (S11, S11), (S22, M(2, 2)), (M(2, 2), S22), (S11, M(2, 2)), (T22, T22), (T11, T11),
                     (T22, ('arr', (2, 2))), (('arr', (2, 2)), T22), (T11, S11), (S22, T22), (T22, Tg2), (Tg2, T22),
                     (Sg2, S22), (S22, Sg2), (Tg2, Tg2), (Sg2, Sg2), (S22, S11), (T22, T11), (T11, T22), (S22, ('f',)),
                     (('f',), T22), (Tg2, M(2, 2)), (Sg2, M(2, 2))):
            add('binop', l, r, _meth=o)
        for m in allm:
            for n in ((), (1,), (2,), (3,)):
                add('binop', m, ('arr', n), _meth=o)
                add('binop', ('arr', n), m, _meth=o)
    for l, r in ((S22, ('f',)), (T22, ('f',)), (T11, T11), (Tg2, Tg2), (('f',), S22), (('f',), T11), (Sg2, Sg2)):
        add('binop', l, r, _meth='div')
    for m in allm:
        add('method', m, _meth='__neg__')
        add('method', m, ('tup', (0, 0)), _meth='__getitem__')
        for a in ('poles', 'zeros', 'shape', 'SamplingPeriod', 'SamplingSet', 'NumberOfInputs', 'NumberOfOutputs',
                  'DiscretizedWith', 'DiscretizationMatrix', 'PrewarpFrequency'):
            add('getattr', m, _meth=a)
        for a in (('a', 'b', 'c', 'd', 'matrices', 'NumberOfStates') if isstate(m) else ('num', 'den', 'polynomials')):
            add('getattr', m, _meth=a)
        add('method', m, _meth='to_array')
        add('getattr', m, _meth='dcgain')
        add('method', m, _meth='pole_properties')
        add('feedback', m, m) if oshape(m)[0] == oshape(m)[1] else None
        add('state_to_transfer' if isstate(m) else 'transfer_to_state', m)
        add('state_to_transfer' if isstate(m) else 'transfer_to_state', m, output='matrices')
        if m[0] != 'T':
            add('minimal_realization', m)
        elif odt(m) is None:
            add('minimal_realization', ('RT', *oshape(m), None))
            add('minimal_realization', ('RT', *oshape(m), 0.5))
        add('hessenberg_realization', m, compute_T=True)
        add('hessenberg_realization', m, form='o', invert=True)
        if isstate(m):
            add('kalman_decomposition', m)
            add('controllability_matrix', m)
            add('observability_matrix', m)
            add('is_kalman_controllable', m)
            add('is_kalman_observable', m)
            add('concatenate_state_matrices', m)
        if oshape(m) == (1, 1):
            add('system_norm', m)
        if m[0] != 'T' or oshape(m) == (1, 1):
            add('system_norm', m, p=2)
        for w in (None, 'grid'):
            add('frequency_response', m, **({} if w is None else {'w': ('grid', 3)}))
        add('simulate_step_response', m)
        add('simulate_impulse_response', m)
        n = oshape(m)[1]
        ts = None if odt(m) is None else Z
        add('simulate_linear_system', m, M(4, n), ('time', 4, ts))
        if m[0] == 'S':
            add('simulate_linear_system', m, M(4, n), ('time', 4, ts), x0=M(2))
        if odt(m) is None:
            for meth in ('tustin', 'zoh', 'foh', '>>', '<<'):
                add('discretize', m, ('dt', Z), method=meth)
            add('discretize', m, ('dt', Z), method='lft', q=M(2, 2))
        else:
            for meth in ('tustin', 'zoh', 'foh', '>>', '<<'):
                add('undiscretize', m, method=meth)
            add('undiscretize', m)
            add('undiscretize', m, method='lft', q=M(2, 2))
        for f in ('bode_plot', 'nyquist_plot', 'step_response_plot', 'impulse_response_plot'):
            add(f, m)
            if m in (S11, S22, T11d):
                add(f, m, gridspec_kw=('dct', (('hspace', 0.1),)), style=('lst', (('dct', (('color', 'r'),)),)),
                    **{'w' if f[0] in 'bn' else 't': ('grid', 3) if f[0] in 'bn' else ('time', 4, None if odt(m) is None else Z)})
        add('bode_plot', m, w=('grid', 3))
        add('nyquist_plot', m, w=('grid', 3))
    # setters
    for a, sh in (('a', (2, 2)), ('b', (2, 2)), ('c', (2, 2)), ('d', (2, 2))):
        add('setattr', S22, M(*sh), _meth=a)
    add('setattr', T11, ('parr', 2), _meth='num')
    add('setattr', T11, ('parr', 3), _meth='den')
    add('setattr', T22, ('lst', (('lst', (('parr', 2), ('parr', 1))), ('lst', (('parr', 1), ('parr', 2))))), _meth='num')
    add('setattr', T22, ('lst', (('lst', (('parr', 3), ('parr', 2))), ('lst', (('parr', 2), ('parr', 3))))), _meth='den')
    # matrix functions
    add('feedback', M(2, 2), S22)
    add('feedback', T22, M(2, 2), negative=False)
    add('feedback', S11, ('f',))
    for form in ('c', 'o'):
        for inv in (False, True):
            add('staircase', M(2, 2), M(2, 1), M(1, 2), form=form, invert=inv)
            add('staircase', M(2, 2), M(2, 2), M(2, 2), form=form, invert=inv)
    add('hessenberg_realization', ('tup', (M(3, 3), M(3, 2), M(1, 3))), compute_T=True)
    add('cancellation_distance', M(2, 2), M(2, 1))
    add('transmission_zeros', M(2, 2), M(2, 1), M(1, 2), M(1, 1))
    add('transmission_zeros', M(2, 2), M(2, 1), M(1, 2), ('Z', (1, 1)))
    add('transmission_zeros', M(3, 3), M(3, 2), M(2, 3), ('Z', (2, 2)))
    add('controllability_matrix', ('tup', (M(2, 2), M(2, 1))))
    add('observability_matrix', ('tup', (M(2, 2), M(1, 2))))
    add('controllability_matrix', ('tup', (M(2, 2), M(2, 1))), compress=True)
    add('observability_matrix', ('tup', (M(2, 2), M(1, 2))), compress=True)
    add('controllability_indices', M(2, 2), M(2, 1))
    for form in ('c', 'd'):
        add('lyapunov_eq_solver', M(2, 2), M(2, 2), form=form)
        add('lyapunov_eq_solver', M(2, 2), M(2, 2), M(2, 2), form=form)
        add('lyapunov_eq_solver', M(1, 1), M(1, 1), form=form)
        add('lyapunov_eq_solver', M(3, 3), M(3, 3), form=form)
        add('lyapunov_eq_solver', M(3, 3), M(3, 3), M(3, 3), form=form)
        add('lyapunov_eq_solver', M(1, 1), M(1, 1), M(1, 1), form=form)
        add('lyapunov_eq_solver', M(2, 2), ('M', (2, 2), 'int'), form=form)
    for m in (S22, S22d, T22, S11):
        n = 2 if m[0] == 'S' else 4
        nu = oshape(m)[1]
        add('lqr', m, M(n, n))
        add('lqr', m, M(n, n), M(nu, nu))
        add('lqr', m, M(n, n), M(nu, nu), M(n, nu))
        add('lqr', m, M(oshape(m)[0], oshape(m)[0]), weight_on='output')
    for m in (S11, S11d, T11, ('S', 3, 1, 1, None)):
        n = m[1] if m[0] == 'S' else 2
        add('ackermann', m, M(n))
        add('ackermann', m, ('lst', tuple(('f',) for _ in range(n))))
    add('ackermann', ('tup', (M(2, 2), M(2, 1))), M(2))
    add('place_poles', M(2, 2), M(2, 1), M(2))
    # polynomial and array helpers
    add('haroldlcm', ('parr', 2), ('parr', 3))
    add('haroldlcm', ('parr', 2), ('parr', 3), compute_multipliers=False)
    add('haroldgcd', ('parr', 2), ('parr', 3))
    add('haroldcompanion', ('parr', 4))
    add('haroldcompanion', ('poly', 3))
    add('haroldpoly', M(3))
    add('haroldpoly', ('lst', (('f',), ('f',))))
    for f in ('haroldpolyadd', 'haroldpolymul'):
        add(f, ('parr', 2), ('parr', 3))
        add(f, ('parr', 2), ('parr', 3), trim_zeros=False)
        add(f, ('parr', 2), ('parr', 3), ('parr', 1))
    add('haroldpolydiv', ('parr', 4), ('parr', 2))
    add('haroldsvd', M(2, 3))
    add('haroldsvd', M(3, 2), also_rank=True)
    add('haroldker', M(2, 3))
    add('haroldker', M(3, 2), side='left')
    add('pair_complex_numbers', ('M', (4,), 'complex'))
    add('pair_complex_numbers', ('M', (4,), 'complex'), positives_first=True, reals_first=False)
    add('e_i', 4, 1)
    add('e_i', 4, ('lst', (1, 2)), output='r')
    for cor in ('nw', 'ne', 'sw', 'se'):
        add('matrix_slice', M(4, 3), ('tup', (2, 1)), corner=cor)
    for n, p, m, dt in ((2, 1, 1, None), (3, 2, 3, Z), (0, 2, 2, None)):
        add('random_state_model', n, p, m, dt=('dt', dt))
    add('random_state_model', 3, 1, 1, prob_dist=('M', (5,)), stable=False)
    return [c for c in out if c is not None]
