"""C29 staircase, Hessenberg and Kalman forms are similarity transformations."""
from .kalman import *

RULE = ('value numbering: with T the returned matrix, A T = T Ah, T Bh = B and Ch = C T (the input/output behaviour alone when no T is '
        'returned), T orthogonal for staircase and Hessenberg forms, and the zero blocks of the documented form vanish; singular '
        'value, QR and Hessenberg factors are interpreted exactly in GF(p), ranks are those of the Kalman structure of the case')
ANCHORS = ('staircase', 'hessenberg_realization', 'kalman_decomposition')
MIN = {'quick': 60}
CASE_SECONDS = 200
SF = 'harold/_system_funcs.py:'
WHERE = {'staircase': SF + 'staircase', 'hess': SF + 'hessenberg_realization', 'kalman': 'harold/_kalman_ops.py:kalman_decomposition'}


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for st in STRUCT[n]:
            for form in 'co':
                k = rank(st, form)
                for q in (1, 2):
                    for r in (1, 2) if n == 2 else (1,):
                        for inv in (False, True):
                            if n == 3 and k == 3 and q == 2:
                                continue
                            out.append(('staircase', st, q, r, form, inv, None))
        for form in 'co':
            for inv in (False, True):
                for q, r in ((1, 1), (2, 1), (1, 2), (2, 2)):
                    for o in ('system', 'matrices', 'system no T', 'matrices no T', 'tuple', 'tuple matrices'):
                        out.append(('hess', (n, 0, 0, 0), q, r, form, inv, o))
        for st in STRUCT[n]:
            if st[0] + st[1] == 0:
                continue
            for q, r in ((1, 1), (2, 1), (1, 2)):
                if st in ((2, 1, 0, 0), (2, 0, 1, 0)) and q * r > 1 or max(st) < 3 and n == 3 and q * r > 2:
                    continue
                for o in ('system', 'matrices', 'system no T', 'matrices no T'):
                    out.append(('kalman', st, q, r, None, None, o))
    return out


def name(c):
    f, st, m, p, form, inv, o = c
    s = {'staircase': 'staircase', 'hess': 'hessenberg_realization', 'kalman': 'kalman_decomposition'}[f]
    return '%s(structure %s, %dx%d%s%s%s)' % (s, '+'.join(map(str, st)), p, m, ', %r' % form if form else '', ', invert' if inv else '',
                                           ', ' + o if o else '')


def shape_facts(F, c, st, ah, bh, ch):
    f, _, m, p, form, inv, _ = c
    n = ah.shape[0]
    if f == 'kalman':
        kc = st[0] + st[1]
        z = [('A', i, j) for i in range(kc, n) for j in range(kc)] + [('B', i, j) for i in range(kc, n) for j in range(m)]
        z += [('C', i, j) for i in range(p) for j in range(st[0], kc)]
        z += [('A', i, j) for i in range(st[0]) for j in range(st[0], kc)]
    else:
        # in terms of the controller form without inversion
        if form == 'o':
            ah, bh, ch = tr(ah), tr(ch), tr(bh)
        m = bh.shape[1]
        if f == 'hess':
            k, z = n, []
            if m == 1:
                z = [('B', i, 0) for i in range(1, n)]
            z += [('A', i, j) for i in range(n) for j in range(n) if i > j + 1]
        else:
            k = rank(st, form)
            z = [('A', i, j) for i in range(k, n) for j in range(k)] + [('B', i, j) for i in range(min(m, k), n) for j in range(m)]
            if m == 1:
                z += [('A', i, j) for i in range(n) for j in range(n) if i > j + 1]
        if inv:
            z = [(w, n - 1 - i, n - 1 - j if w == 'A' else j) for w, i, j in z]
    M = {'A': ah, 'B': bh, 'C': ch}
    es = [tm.entries(M[w])[i * M[w].shape[1] + j] for w, i, j in z]
    if es:
        F.eq(tm.lit(es, (len(es),)), tm.zeros((len(es),)), 'the matrices do not have the zero blocks of the form')


def run_case(I, s, c):
    f, st, m, p, form, inv, o = c
    if form == 'o':
        m, p = p, m
    n = sum(st)
    a, b, cc = data(st, p, m)
    d = tm.leaf('D', (p, m))
    I.general, I.eqbudget, I.limit = True, 0, 4000000
    where = WHERE[f]
    if f == 'staircase':
        saved, I.summaries = I.summaries, {k: v for k, v in I.summaries.items() if k != 'staircase'}
        rs = call(I, 'staircase', [arr(s, x) for x in (a, b, cc)], {'form': C(form), 'invert': C(inv)}, s)
        I.summaries = saved
    else:
        kw = {}
        if 'no T' not in o:
            kw['compute_T'] = C(True)
        if 'matrices' in o:
            kw['output'] = C('matrices')
        if f == 'hess':
            kw.update(form=C(form), invert=C(inv))
        if o.startswith('tuple'):
            x = Tu([arr(s, t) for t in (a, b, cc)])
        else:
            x, s = state(I, s, st, p, m, d=d)
        rs = call(I, name(c).split('(')[0], [x], kw, s)

    def pred(v, t):
        T = None
        if f == 'staircase':
            vs = v.items if isinstance(v, Tu) else ()
            if len(vs) != 4:
                return False, 'the result is not a quadruple'
            ms, T = [known(x, t, None) for x in vs[:3]], known(vs[3], t, None)
        else:
            if 'matrices' in o and f == 'hess':
                k = 3 + ('no T' not in o)
                if not isinstance(v, Tu) or len(v.items) != k:
                    return False, 'the result is not a %d-tuple' % k
                ms = [known(x, t, None) for x in v.items[:3]]
                if k == 4:
                    T = known(v.items[3], t, None)
            else:
                g = v
                if 'no T' not in o:
                    if not isinstance(v, Tu) or len(v.items) != 2:
                        return False, 'the result is not a pair'
                    g, T = v.items[0], known(v.items[1], t, None)
                if 'matrices' in o:
                    if not isinstance(g, Tu) or len(g.items) != 4:
                        return False, 'the matrices are not returned as a quadruple'
                    ms = [known(x, t, None) for x in g.items]
                else:
                    ms = abcd(I, g, t)
        F = Facts(t)
        ah, bh, ch = ms[:3]
        if ah.shape != a.shape or bh.shape != b.shape or ch.shape != cc.shape:
            return False, 'the matrices have shapes %s, %s, %s' % (ah.shape, bh.shape, ch.shape)
        if len(ms) > 3:
            F.eq(ms[3], d if not o.startswith('tuple') else tm.zeros((p, m)), 'the feedthrough is changed')
        if T is not None:
            if T.shape != (n, n):
                return False, 'T has shape %s' % (T.shape,)
            if f != 'kalman':
                F.eq(mm(tr(T), T), tm.eye(n), 'T is not orthogonal')
            F.eq(mm(a, T), mm(T, ah), 'A T differs from T Ah')
            F.eq(b, mm(T, bh), 'B differs from T Bh')
            F.eq(mm(cc, T), ch, 'C T differs from Ch')
        else:
            z = tm.zeros((p, m))
            F.eq(state_term(ah, bh, ch, z), state_term(a, b, cc, z), 'the input/output behaviour is changed')
        shape_facts(F, c, st, ah, bh, ch)
        return F.done()
    return res(name(c), judge_total(I, rs, pred, where), where)
