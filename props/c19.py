"""C19 conversions and realizations keep the input/output behaviour."""
from .formula import *

RULE = ('value numbering: the transfer matrix of a converted or re-realized model is compared with that of the original as '
        'a rational function by random interpretation in GF(p)[i]; eigenvalues, polynomial roots and zeros are '
        'interpreted by exact factorization, orthogonal factors by orthogonal matrices')
ANCHORS = ('state_to_transfer', 'transfer_to_state', 'hessenberg_realization', 'State', 'Transfer')
MIN = {'quick': 60}
# numerator/denominator lengths per entry of MIMO transfers with unlike entries
MIX = {'mixdeg': [[(2, 3), (1, 2)], [(1, 1), (2, 2)]], 'zeroentry': [[(1, 2), 0], [0, (1, 2)]],
       'gains': [[(2, 2), (1, 1)], [(1, 1), (1, 1)]], 'row': [[(1, 2), (1, 3)]], 'col': [[(1, 2)], [(2, 2)]],
       'zerorow': [[(1, 2), (1, 2)], [0, 0]], 'zerocol': [[0, (2, 3)], [0, (1, 2)]], 'wide': [[(1, 2), (1, 1), (1, 2)]]}


def cases(tier):
    out = []
    for dt in (None, 'T'):
        for p, m in ((1, 1), (2, 2), (1, 2), (2, 1), (2, 3)):
            for n in (1, 2, 3):
                if n == 3 and (p, m) != (1, 1):
                    continue
                for d0 in ((), ('D0',)):
                    out.append(('s2t', ('S', n, p, m, dt) + d0))
            out.append(('s2t', ('Sg', p, m, dt)))
            out.append(('t2s', ('Tg', p, m, dt)))
            for deg in ((1, 2), (2, 2), (2, 3), (3, 3), (1, 3)) + (((1, 4), (4, 4)) if (p, m) == (1, 1) else ()):
                out.append(('t2s', ('T', p, m, dt, deg)))
                if (p, m) == (1, 1) and max(deg) < 4:
                    out.append(('tst', ('T', p, m, dt, deg)))
            for n in (2, 3):
                for form in ('c', 'o'):
                    out.append(('hess', ('S', n, p, m, dt), form))
            out.append(('hess', ('Sg', p, m, dt), 'c'))
            out.append(('s2tm', ('S', 2, p, m, dt)))
            out.append(('t2sm', ('T', p, m, dt, (2, 2))))
            out.append(('t2st', ('T', p, m, dt, (2, 3))))
        for k in MIX:
            out.append(('mix', k, dt))
            out.append(('mixc', k, dt))
    return out


def name(c):
    return {'s2t': 'state_to_transfer(%s)', 't2s': 'transfer_to_state(%s)', 'tst': 'state_to_transfer(transfer_to_state(%s))',
            'hess': 'hessenberg_realization(%s, %r)', 's2tm': "state_to_transfer(%s, output='polynomials')",
            't2sm': "transfer_to_state(%s, output='matrices')", 't2st': 'transfer_to_state((num, den) of %s)',
            'mix': 'transfer_to_state(Transfer %s, dt=%s)', 'mixc': 'transfer_to_state(Transfer %s, common denominator, dt=%s)'}[c[0]] \
        % (c[1:] if isinstance(c[1], str) else (sname(c[1]),) + tuple(c[2:]))


def mixed(I, s, k, dt, common=False):
    num, den = [], []
    for i, r in enumerate(MIX[k]):
        ln, ld = [], []
        for j, e in enumerate(r):
            if e == 0:
                ln.append(s.new_list([C(0.0)]))
                ld.append(s.new_list([C(1.0)]))
            else:
                ln.append(poly(s, 'n%d%d' % (i, j), e[0]))
                ld.append(poly(s, 'd%d%d' % (i, j), e[1]))
        num.append(s.new_list(ln))
        den.append(s.new_list(ld))
    kw = {'dt': dtval(dt)} if dt is not None else {}
    d = s.new_list(den)
    if common:
        d = poly(s, 'd', 3)
    b, I.eqbudget = I.eqbudget, 0
    r = made(call(I, 'Transfer', [s.new_list(num), d], kw, s), k)
    I.eqbudget = b
    return r


W = {'s2t': 'harold/_classes.py:state_to_transfer', 'tst': 'harold/_classes.py:state_to_transfer',
     's2tm': 'harold/_classes.py:state_to_transfer', 'hess': 'harold/_system_funcs.py:hessenberg_realization'}


def run_case(I, s, c):
    k = c[0]
    where = W.get(k, 'harold/_classes.py:transfer_to_state')
    if k in ('mix', 'mixc'):
        a, s = mixed(I, s, c[1], c[2], k == 'mixc')
    else:
        a, s = build(I, s, c[1], 'a')
    want = gz(I, a, s)
    pred = value_pred(I, want, 'the converted model')
    if k == 's2t':
        rs = call(I, 'state_to_transfer', [a], {}, s)
    elif k in ('t2s', 'mix', 'mixc'):
        rs = call(I, 'transfer_to_state', [a], {}, s)
    elif k == 'tst':
        I.eqbudget = 0
        b, s = good(call(I, 'transfer_to_state', [a], {}, s))
        rs = call(I, 'state_to_transfer', [b], {}, s)
    elif k == 'hess':
        rs = call(I, 'hessenberg_realization', [a], {'form': C(c[2])}, s)
    elif k == 's2tm':
        rs = call(I, 'state_to_transfer', [a], {'output': C('polynomials')}, s)
        pred = tuple_pred(I, want, 2)
    elif k == 't2sm':
        rs = call(I, 'transfer_to_state', [a], {'output': C('matrices')}, s)
        pred = tuple_pred(I, want, 4)
    else:
        t = Tu([attr(I, a, s, 'num'), attr(I, a, s, 'den')])
        rs = call(I, 'transfer_to_state', [t], {}, s)
    return res(name(c), judge_values(I, rs, pred, where), where)


def tuple_pred(I, want, n):
    def pred(v, t):
        if not isinstance(v, Tu) or len(v.items) != n:
            return False, 'the result is not a %d-tuple' % n
        if n == 4:
            ts = [term(x, t) for x in v.items]
            if any(x is None or x.shape is None or not tm.conc(x.shape) for x in ts):
                return None, 'no terms'
            g = state_term(*ts)
        else:
            ps = []
            for x in v.items:
                if isinstance(x, A):
                    ps.append([[tm.entries(term(x, t))]])
                else:
                    r = rows(x, t)
                    if r is None:
                        return None, 'no structure'
                    ps.append([[tm.entries(term(e, t)) for e in rows(y, t)] for y in r])
            g = transfer_term(*ps)
        if g.shape != want.shape:
            return False, 'the result has shape %s instead of %s' % (g.shape, want.shape)
        r = agree(t, g, want)
        return (r, 'same transfer matrix') if r else (None, 'not comparable') if r is None else \
            (False, 'the transfer matrix of the result is wrong')
    return pred
