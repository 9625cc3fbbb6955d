"""C35 poles, zeros and the pole table."""
from .formula import *

RULE = ('value numbering: the poles of a State model are the eigenvalues of its A matrix, those of a SISO Transfer the roots of its denominator, its zeros the '
        'roots of its numerator, also after the data is replaced; the rows of the pole table hold the pole, its natural frequency |s| and damping -Re(s)/|s| '
        'with s the pole or log(pole)/dt, and (pole, 0, nan) for integrators; static gains have neither')
ANCHORS = ('State', 'Transfer')
MIN = {'quick': 150}
CASE_SECONDS = 60
WC = 'harold/_classes.py:'


def cases(tier):
    out = []
    for dt in (None, 0.5, 1, 2):
        for n in (1, 2, 3, 4):
            for p, m in ((1, 1), (2, 1), (2, 2)):
                out.append(('state', n, p, m, '', dt))
            out.append(('state', n, 1, 1, 'set', dt))
        for p, m in ((1, 1), (2, 2), (1, 2)):
            out += [(k, 0, p, m, '', dt) for k in ('gain', 'tgain')]
        for n in (1, 2, 3, 4):
            for k in range(n + 1):
                out += [('tf', n, k, 0, x, dt) for x in ('', 'setnum', 'setden')]
            out += [('tf', n, 0, 0, 'lead', dt)]
        for sp in TABLE[dt is not None]:
            out += [('table', sp, 0, 0, x, dt) for x in ('state', 'transfer')]
    return out


# spectra for the pole table: constants, 'x' a real number in general position, '+' a positive one
TABLE = {False: (('x',), ('x', 'y'), (0,), (0, 'x'), ('x', 0), (0, 0), (-2,), (-2, 3), (-3 + 4j,), (2j,), (3 - 4j, -1), (0, -1 + 1j), (1,), (1, -1), (-0.5, 'x', 0)),
         True: (('x',), ('x', 'y'), (1,), (1, 'x'), ('x', 1), (1, 1), (0.5,), (-0.5,), (0.5, 2), (0.5 + 0.5j,), (1j,), (1, 0.25 - 0.5j), (-1,), (1, -1), ('x', 1, 0.25))}


def name(c):
    k, n, p, m, x, dt = c
    if k == 'table':
        return 'pole_properties(%s with poles %s, dt=%s)' % (x, ', '.join(map(str, n)), dt)
    if k == 'tf':
        return 'poles and zeros of Transfer of degrees %d/%d%s, dt=%s' % (p, n, ', ' + x if x else '', dt)
    return 'poles of %s %s%dx%d%s, dt=%s' % ({'state': 'State', 'gain': 'State gain', 'tgain': 'Transfer gain'}[k], '%d states ' % n if n else '', p, m, ', a replaced' if x else '', dt)


def run_case(I, s, c):
    k, n, p, m, x, dt = c
    I.general, I.eqbudget, I.limit = True, 0, 2000000
    kw = {'dt': C(dt)} if dt else {}
    L = lambda nm, r, q: tm.lit([tm.leaf('%s%d%d' % (nm, i, j), (), ('nonzero',)) for i in range(r) for j in range(q)], (r, q))
    ar = lambda t: s.new_arr(t, 'float', t.shape)
    if k == 'table':
        return table(I, s, c, kw)
    if k in ('gain', 'tgain'):
        g, s = good(call(I, 'State' if k == 'gain' else 'Transfer', [ar(L('d', p, m))], kw, s), k)
        pp, zz = empty, empty
        rs = mcall(I, s.fork(), g, 'pole_properties', [], {})
        V = [('table', judge_total(I, rs, lambda v, t: (True, 'None') if isinstance(v, C) and v.v is None else (False, 'a gain has a pole table'), WC + '_pole_properties'))]
        w = WC + ('State' if k == 'gain' else 'Transfer')
    elif k == 'state':
        A = L('a', n, n)
        g, s = good(call(I, 'State', [ar(A), ar(L('b', n, m)), ar(L('c', p, n)), ar(L('d', p, m))], kw, s), k)
        if x:
            A = L('e', n, n)
            s = put(I, g, 'a', ar(A), s)
        pp, zz = spectrum(tm.uf('charpoly', (A,), (n + 1,))), None
        V, w = [], WC + 'State'
    else:
        num, den = [tm.leaf('n%d' % i, (), ('nonzero',)) for i in range(p + 1)], [tm.leaf('q%d' % i, (), ('nonzero',)) for i in range(n + 1)]
        vec = lambda l: s.new_arr(tm.lit(l, (len(l),)), 'float', (len(l),))
        n0, d0 = num, den
        if x == 'setnum':
            n0 = [tm.leaf('o%d' % i, (), ('nonzero',)) for i in range(n + 1)]
        if x == 'setden':
            d0 = [tm.leaf('o%d' % i, (), ('nonzero',)) for i in range(n + 2)]
        g, s = good(call(I, 'Transfer', [vec([tm.ZERO] * (n if x == 'lead' else 0) + n0), vec(d0)], kw, s), k)
        if x == 'setnum':
            s = put(I, g, 'num', vec(num), s)
        if x == 'setden':
            s = put(I, g, 'den', vec(den), s)
        pp, zz = spectrum(tm.lit(den, (n + 1,))), spectrum(tm.lit(num, (p + 1,)))
        V, w = [], WC + 'Transfer'
    for a, f in (('poles', pp), ('zeros', zz)):
        if f is not None:
            V.append((a, judge_total(I, I.getattr_(g, a, s.fork(), None), lambda v, t, a=a, f=f: f(a, term(v, t), t), w + '.' + a)))
    return [res('%s: %s' % (name(c), a), v, w) for a, v in V]


def put(I, g, nm, v, s):
    """the state after g.nm = v"""
    rs = I.setattr_(g, nm, v, s, None)
    return rs[0] if isinstance(rs, list) and not isinstance(rs[0], tuple) else rs[0][1] if isinstance(rs, list) else rs


def empty(nm, x, t):
    if x is None or not tm.conc(x.shape):
        return None, 'unknown value'
    return (True, 'no ' + nm) if tm.nelem(x.shape) == 0 else (False, 'a gain has ' + nm)


def spectrum(coefs):
    """rule: the value lists the roots of the polynomial with these coefficients"""
    es = tm.entries(coefs)

    def rule(nm, x, t):
        if x is None or x.shape is None or not tm.conc(x.shape):
            return None, 'unknown value'
        if x.shape != (len(es) - 1,):
            return False, '%s %s for degree %d' % (x.shape, nm, len(es) - 1)
        if len(es) == 1:
            return True, 'no ' + nm
        # the monic polynomial with these roots, coefficient by coefficient
        r = agree(t, tm.uf('poly', (x,), (len(es),)), tm.lit([tm.arith('div', e, es[0]) for e in es], (len(es),)))
        return (True, nm) if r else (None, 'not comparable') if r is None else (False, 'the %s are not the roots' % nm)
    return rule


def table(I, s, c, kw):
    from .c36 import realized
    k, sp, _, _, kind, dt = c
    w = WC + '_pole_properties'
    lf = lambda z: tm.leaf('pole_' + z, (), ('nonzero',)) if isinstance(z, str) else tm.const(z)
    ar = lambda t: s.new_arr(t, 'float', t.shape)
    full = [y for z in sp for y in ((z, z.conjugate()) if isinstance(z, complex) else (z,))]
    n = len(full)
    if kind == 'state':
        b = [[z] for z in sp]
        A = list(tm.entries(realized([z if not isinstance(z, str) else 7 for z in sp])))
        i = 0
        for z in sp:
            if isinstance(z, str):
                A[i * n + i] = lf(z)
            i += 2 if isinstance(z, complex) else 1
        g, s = good(call(I, 'State', [ar(tm.lit(A, (n, n))), ar(tm.lit([tm.ONE] * n, (n, 1))), ar(tm.lit([tm.ONE] * n, (1, n)))], kw, s), kind)
    else:
        if n > 1:
            return []
        z = lf(full[0])
        g, s = good(call(I, 'Transfer', [C(1), s.new_arr(tm.lit([tm.ONE, tm.neg(z)], (2,)), 'float', (2,))], kw, s), kind)

    def pred(v, t):
        x = term(v, t)
        if x is None or x.shape is None or not tm.conc(x.shape):
            return None, 'unknown value'
        if x.shape != (n, 3):
            return False, 'a table of shape %s for %d poles' % (x.shape, n)
        e, left, und = tm.entries(x), list(full), None
        for i in range(n):
            p, fr, dm = e[3 * i:3 * i + 3]
            ag = [agree(t, p, lf(z)) for z in left]
            if True not in ag:
                return None if None in ag else False, 'row %d is not for a pole' % i
            z = left[ag.index(True)]
            left.remove(z)
            if not isinstance(z, str) and z == (0 if dt is None else 1):
                if not tm.is_zero(fr) or not (dm.op == 'leaf' and dm.args[0] == 'nan'):
                    return False, 'the integrator has a frequency or damping'
                continue
            w_ = lf(z)
            if dt is not None:
                w_ = tm.arith('div', tm.uf('log', (w_,), ()), tm.const(dt))
            ab = tm.const(abs(z)) if dt is None and not isinstance(z, str) else tm.uf('abs', (w_,), ())
            re = tm.uf('real', (w_,), ()) if dt is not None else lf(z.real) if isinstance(z, complex) else w_
            if not agree(t, fr, ab):
                return False, 'natural frequency of row %d is %s' % (i, tm.show(fr)[:80])
            if not agree(t, dm, tm.neg(tm.arith('div', re, ab))):
                return False, 'damping of row %d is %s' % (i, tm.show(dm)[:80])
        return True, 'pole table'
    return res(name(c), judge_total(I, mcall(I, s, g, 'pole_properties', [], {}), pred, w), w)
