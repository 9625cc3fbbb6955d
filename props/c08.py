"""C08 discretized models remember how they were made; method names are checked."""
from .disc import *
from .observe import freeze, feq

RULE = ('attribute dataflow: on every returning path of discretize the method name, prewarp frequency and matrix attributes of the '
        'result have the value numbers of the arguments; undiscretize forgets them; names outside the documented list are rejected '
        'with ValueError by discretize, undiscretize and the attribute; the attributes accept exactly what fits the method')
ANCHORS = ('discretize', 'undiscretize', 'State', 'Transfer')
MIN = {'quick': 150}
KINDS = [('S', 2, 1, 1, None), ('S', 2, 2, 2, None), ('T', 1, 1, None), ('T', 1, 2, None, (1, 2))]
BADNAMES = ('nosuch', '', 'tustin ', 'zoh2')


def disc_spec(g):
    return g[:4] + ('T',) + g[5:] if g[0] == 'S' else g[:3] + ('T',) + g[4:]


def cases(tier):
    out = []
    for g in KINDS:
        for m, pw in methods():
            out.append(('d', g, m, pw))
            out.append(('u', g, m, pw))
        for m in METHODS:
            out.append(('set', g, m, None))
            out.append(('setc', g, m, None))
            for k in ('DiscretizationMatrix', 'PrewarpFrequency'):
                out.append(('attr', g, m, k))
        for m in BADNAMES:
            for f in ('discretize', 'undiscretize', 'DiscretizedWith'):
                out.append(('bad', g, m, f))
        out.append(('badq', g, None, (3, 3)))
        out.append(('badq', g, None, (2, 3)))
        out.append(('badq', g, None, (4,)))
        out.append(('noq', g, None, None))
        out.append(('already', g, None, None))
        out.append(('alreadyc', g, None, None))
    return out


def name(c):
    k, g, m, x = c
    return {'d': 'attributes of discretize(%s, T, %s)', 'u': 'attributes of undiscretize(discretize(%s, T, %s))',
            'set': 'discrete %s.DiscretizedWith = %s', 'setc': 'continuous %s.DiscretizedWith = %s',
            'attr': '%s discretized with %s', 'bad': '%s with unknown method %s', 'badq': '%s, lft matrix of shape %s',
            'noq': '%s, lft without matrix%s', 'already': 'discretize of discrete %s%s',
            'alreadyc': 'undiscretize of continuous %s%s'}[k] % (
        sname(g), mname(m, x) if k in 'du' else repr(m) if k in ('set', 'setc', 'attr', 'bad') else str(x) if k == 'badq' else '') + (
        ': %s' % x if k in ('attr', 'bad') else '')


def read(I, v, t, n):
    return freeze(attr(I, v, t, n), t)


def expect(I, want):
    def pred(v, t):
        if cls_of(v, t) not in ('State', 'Transfer'):
            return None, 'not a model'
        for n, w in want.items():
            r = feq(read(I, v, t, n), w, t)
            if r is None:
                return None, n
            if not r:
                return False, '%s is not what the discretization used' % n
        return True, 'remembered'
    return pred


def run_case(I, s, c):
    k, g, m, x = c
    I.eqbudget = 0
    where = W + ('undiscretize' if k in ('u', 'alreadyc') else 'discretize')
    cw = 'harold/_classes.py:%s' % ('State' if isstate(g) else 'Transfer')
    a, s = build(I, s, disc_spec(g) if k in ('set', 'attr', 'already') else g, 'a')
    dt = N('float', T_)
    if k in 'du':
        kw, q = args_of(I, s, m, x)
        rs = call(I, 'discretize', [a, dt], kw, s)
        want = {'DiscretizedWith': ('c', m), 'SamplingPeriod': ('t', T_),
                'DiscretizationMatrix': ('t', q) if m == 'lft' else ('c', None),
                'PrewarpFrequency': (('t', PW) if x else ('c', 0.0)) if m in TUSTIN else ('c', None)}
        if k == 'u':
            rs = [o for v, t in rs if not isinstance(v, Raise) for o in call(I, 'undiscretize', [v], {}, t)]
            want = {n: ('c', None) for n in want}
        return res(name(c), judge_values(I, rs, expect(I, want), where), where)
    if k in ('set', 'setc'):
        rs = [(a if not isinstance(r, Raise) else r, t) for r, t in I.setattr_(a, 'DiscretizedWith', C(m), s, None)]
        w = cw + '.DiscretizedWith'
        return res(name(c), judge(I, rs, expect(I, {'DiscretizedWith': ('c', m)}), 'return' if k == 'set' else 'raise', where=w), w)
    if k == 'attr':
        w = cw + '.' + x
        _, s = good([(NONE if r is None else r, t) for r, t in I.setattr_(a, 'DiscretizedWith', C(m), s, None)])
        v = qarr(s) if x == 'DiscretizationMatrix' else N('float', PW)
        fits = (m == 'lft') if x == 'DiscretizationMatrix' else m in TUSTIN
        rs = [(a if not isinstance(r, Raise) else r, t) for r, t in I.setattr_(a, x, v, s, None)]
        return res(name(c), judge(I, rs, expect(I, {x: ('t', term(v, s))}), 'return' if fits else 'raise', where=w), w)
    if k == 'bad':
        if x == 'DiscretizedWith':
            a, s = build(I, s, disc_spec(g), 'b')
            rs = [(a if not isinstance(r, Raise) else r, t) for r, t in I.setattr_(a, x, C(m), s, None)]
        elif x == 'discretize':
            rs = call(I, 'discretize', [a, dt], {'method': C(m)}, s)
        else:
            b, s = build(I, s, disc_spec(g), 'b')
            rs = call(I, 'undiscretize', [b], {'method': C(m)}, s)
    elif k == 'badq':
        rs = call(I, 'discretize', [a, dt], {'method': C('lft'), 'q': Aent(s, 'q', x)}, s)
    elif k == 'noq':
        rs = call(I, 'discretize', [a, dt], {'method': C('lft')}, s)
    elif k == 'already':
        rs = call(I, 'discretize', [a, dt], {}, s)
    else:
        rs = call(I, 'undiscretize', [a], {}, s)
    return res(name(c), judge(I, rs, None, 'raise', where=where), where)
