"""C10 each discretization method applies its documented map."""
from .disc import *

RULE = ('value numbering: the transfer matrix of the discretized model equals G(s(z)) with the substitution documented for the '
        'method (forward/backward difference, Tustin with and without prewarping, general LFT), or the zero/first-order-hold '
        'equivalent written with exp(AT) alone; undiscretize applies the inverse substitution')
ANCHORS = ('discretize', 'undiscretize')
MIN = {'quick': 150}


# discretization data the model carries
STORED = ('lft', 'tustin', 'trapezoidal', 'forward difference', 'backward difference')


def cases(tier):
    out = [('d', g, m, pw) for g in shapes() + tshapes() for m, pw in methods() if not (g[0] in ('Tg', 'Sg') and m == 'lft')]
    out += [('u', g[:-1] + ('T',) if g[0] in ('Sg', 'Tg') else g[:4] + ('T',) + g[5:] if g[0] == 'S' else g[:3] + ('T',) + g[4:], m, pw)
            for g in shapes() + tshapes() for m, pw in methods() if m not in ('zoh', 'foh')]
    out += [('dd', g, None, False) for g in shapes() + tshapes()]
    out += [(k, g, m, f) for k in ('pd', 'pu') for g in (('S', 2, 1, 1, 0.5), ('S', 1, 2, 2, 0.5), ('T', 1, 1, 0.5, (1, 2))) for m in TUSTIN
            for f in (0.1, 0.25, 0.99, 1.5, 8.0)]
    out += [('us', g, m, st) for g in (('S', 2, 1, 1, 0.5), ('S', 1, 2, 2, 0.5), ('T', 1, 1, 0.5, (1, 2))) for st in STORED
            for m in ('lft', 'tustin', 'bilinear', '>>', '<<', None)]
    return out


def name(c):
    if c[0] == 'us':
        return 'undiscretize(%s discretized with %r, %s)' % (sname(c[1]), c[3], repr(c[2]) if c[2] else 'no method')
    if c[0] in ('pd', 'pu'):
        return '%s(%s, %s%r, prewarp_at=%s)' % ('discretize' if c[0] == 'pd' else 'undiscretize', sname(c[1]), '0.5, ' if c[0] == 'pd' else '', c[2], c[3])
    f = {'d': 'discretize(%s, T, %s)', 'u': 'undiscretize(%s, %s)', 'dd': 'discretize(%s, T)%s'}[c[0]]
    return f % (sname(c[1]), mname(c[2], c[3]) if c[2] else '')


def prewarped(I, s, c):
    """concrete sampling period 0.5: frequencies below 1 Hz are usable, those above are refused"""
    k, spec, m, f = c
    I.general, I.eqbudget = True, 0
    where = W + ('undiscretize' if k == 'pu' else 'discretize')
    if k == 'pd':
        spec = spec[:4] + (None,) + spec[5:] if spec[0] == 'S' else spec[:3] + (None,) + spec[4:]
    a, s = build(I, s, spec, 'a')
    rs = call(I, 'discretize' if k == 'pd' else 'undiscretize', [a] + ([C(0.5)] if k == 'pd' else []), {'method': C(m), 'prewarp_at': C(f)}, s)
    if f > 1:
        return res(name(c), judge(I, rs, None, must='raise', where=where), where)
    sz = s_of_z(m, True, T_=tm.const(0.5), PW=tm.const(f))
    want, zz = (gz(I, a, s, sz), Z_) if k == 'pd' else (gz(I, a, s), sz)

    def pred(v, t):
        r = agree(t, gz(I, v, t, zz), want)
        return r if r else (r, 'the model is not the prewarped bilinear transform')
    return res(name(c), judge_total(I, rs, pred, where), where)


def stored(I, s, c):
    """the method and map of the call go before those the model carries; without a method the latter are used"""
    k, spec, m, st = c
    I.general, I.eqbudget = True, 0
    where = W + 'undiscretize'
    a, s = build(I, s, spec, 'a')
    data = [('DiscretizedWith', C(st))]
    own = Aent(s, 'r', (2, 2))
    if st == 'lft':
        data.append(('DiscretizationMatrix', own))
    elif st in TUSTIN:
        data.append(('PrewarpFrequency', C(0.25)))
    for x, v in data:
        _, s = good(I.setattr_(a, x, v, s, None), x)
    kw, q = args_of(I, s, m, False) if m else ({}, None)
    rs = call(I, 'undiscretize', [a], kw, s)
    if m == 'lft':
        want, zz = gz(I, a, s, s_of_z('lft', q=q)), Z_
    else:
        want, zz = gz(I, a, s), s_of_z(m or st, m is None and st in TUSTIN, q=term(own, s), T_=tm.const(0.5), PW=tm.const(0.25))

    def pred(v, t):
        r = agree(t, gz(I, v, t, zz), want)
        return r if r else (r, 'the model is not converted back with the %s map' % ('given' if m else 'stored'))
    return res(name(c), judge_total(I, rs, pred, where), where)


def run_case(I, s, c):
    if c[0] == 'us':
        return stored(I, s, c)
    if c[0] in ('pd', 'pu'):
        return prewarped(I, s, c)
    k, spec, m, pw = c
    if not pw:
        I.general, I.eqbudget = True, 0
    a, s = build(I, s, spec, 'a')
    where = W + ('undiscretize' if k == 'u' else 'discretize')
    gain = spec[0] in ('Sg', 'Tg')
    kw, q = args_of(I, s, m or 'tustin', pw)
    if k == 'dd':
        kw = {}
    if k in ('d', 'dd'):
        rs = call(I, 'discretize', [a, N('float', T_)], kw, s)
        if gain:
            want = gz(I, a, s)
        elif m in ('zoh', 'foh'):
            if spec[0] == 'T':
                b, s2 = good(call(I, 'transfer_to_state', [a], {}, s))
                want = hold(m, *abcd(I, b, s2))
            else:
                want = hold(m, *abcd(I, a, s))
        else:
            want = gz(I, a, s, s_of_z(m or 'tustin', pw, q=q))
        pred = value_pred(I, want, 'the discretized model')
    else:
        rs = call(I, 'undiscretize', [a], kw, s)
        # Gc(s(z)) = G(z); with q given it maps the other way round
        if m == 'lft':
            want, zz = gz(I, a, s, s_of_z('lft', q=q)), Z_
        else:
            want, zz = gz(I, a, s), s_of_z(m, pw)

        def pred(v, t):
            if cls_of(v, t) not in ('State', 'Transfer'):
                return None, 'result is not a model'
            g = gz(I, v, t, zz)
            if g.shape != want.shape:
                return None, 'shape'
            r = agree(t, g, want)
            if r is None:
                return ('skip', 'special data') if not path_defs(t)[1] else (None, 'not comparable')
            return (r, 'inverse map') if r else (False, 'the model is not the inverse of the %s map' % m)
    return res(name(c), (judge_values if pw else judge_total)(I, rs, pred, where), where)
