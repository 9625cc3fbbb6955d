"""C07 assigning a property equals building the model anew; a rejected assignment changes nothing."""
from .observe import *

RULE = ('relational abstract interpretation: after assigning a matrix, polynomial or sampling period every public attribute (and the '
        'stability, gain and SISO status) has the same value number as in a model constructed from the new data; when the assignment '
        'raises, every attribute has its old value number')
ANCHORS = ('State', 'Transfer')
MIN = {'quick': 100}
CL = 'harold/_classes.py:'


def cases(tier):
    out = []
    for dt in (None, 'T'):
        for n, p, m in ((1, 1, 1), (2, 1, 1), (2, 2, 2), (2, 1, 2), (2, 2, 1), (3, 2, 3)):
            g = ('S', n, p, m, dt)
            sh = {'a': (n, n), 'b': (n, m), 'c': (p, n), 'd': (p, m)}
            for k in 'abcd':
                out.append((g, k, ('M', sh[k]), 'must'))
                out.append((g, k, ('M', sh[k], 'int'), 'must'))
                for bad in ((sh[k][0] + 1, sh[k][1] + 1), (sh[k][0], sh[k][1] + 1), (sh[k][0] + 2, sh[k][1])):
                    out.append((g, k, ('M', bad), 'raise'))
            if p == m == 1:
                out.append((g, 'd', ('f',), 'must'))
            if p == m == n == 1:
                out += [(g, k, ('f',), 'must') for k in 'abc']
        for p, m in ((1, 1), (2, 2), (1, 2)):
            g = ('Sg', p, m, dt)
            out.append((g, 'd', ('M', (p, m)), 'must'))
            out.append((g, 'd', ('M', (p + 1, m)), 'either'))
            out.append((g, 'd', ('M', (p + 1, m + 1)), 'either'))
        for ln, ld in ((1, 2), (2, 3), (2, 2), (1, 3), (3, 3)):
            g = ('T', 1, 1, dt, (ln, ld))
            for k in ('num', 'den'):
                for l in (1, 2, 3, 4):
                    for f in ('poly', 'parr'):
                        out.append((g, k, (f, l), 'must' if (l <= ld if k == 'num' else l >= ln) else 'raise'))
            out.append((g, 'num', ('f',), 'must'))
            out.append((g, 'num', ('lst', (('lst', (('poly', 1), ('poly', 1))),)), 'raise'))
            out.append((g, 'den', ('lst', (('lst', (('poly', ld),)), ('lst', (('poly', ld),)))), 'raise'))
        for p, m in ((2, 2), (1, 2), (2, 1)):
            g = ('T', p, m, dt, (2, 3))
            nest = lambda l, p=p, m=m: ('lst', tuple(('lst', tuple(('poly', l) for j in range(m))) for i in range(p)))
            for l in (1, 2, 3):
                out.append((g, 'num', nest(l), 'must'))
            for l in (2, 3):
                out.append((g, 'den', nest(l), 'must'))
            out.append((g, 'den', nest(1), 'raise'))
            out.append((g, 'num', nest(4), 'raise'))
            out.append((g, 'num', nest(2, p + 1, m), 'raise'))
            out.append((g, 'den', nest(3, p, m + 1), 'raise'))
        for g in (('Tg', 1, 1, dt), ('Tg', 2, 2, dt)):
            out.append((g, 'num', ('f',) if g[1] == 1 else ('arr', (2, 2)), 'must'))
            out.append((g, 'den', ('poly', 2), 'either'))
        out.append((('Tg', 1, 1, dt), 'den', ('f',), 'must'))
        for g in (('S', 2, 2, 2, dt), ('S', 2, 1, 1, dt), ('Sg', 2, 2, dt), ('T', 1, 1, dt), ('T', 1, 1, dt, (1, 3)), ('T', 2, 2, dt),
                  ('Tg', 1, 1, dt)):
            for v in (None, ('dt', 'T2'), 0.25, 1):
                out.append((g, 'SamplingPeriod', v, 'must'))
            for v in (-0.5, 0, 'x'):
                out.append((g, 'SamplingPeriod', v, 'raise'))
    return out


def name(c):
    from .calls import aname
    return '%s.%s = %s' % (sname(c[0]), c[1], aname(c[2]))


def rebuild(I, s, v, k, x):
    cl = cls_of(v, s)
    dt = attr(I, v, s, 'SamplingPeriod')
    kw = {}
    if k == 'SamplingPeriod':
        dt = x
    if not (isinstance(dt, C) and dt.v is None):
        kw['dt'] = dt
    if cl == 'State':
        if attr(I, v, s, 'NumberOfStates') == C(0):
            a = [x if k == 'd' else attr(I, v, s, 'd')]
        else:
            a = [x if k == n else attr(I, v, s, n) for n in 'abcd']
    else:
        a = [x if k == n else attr(I, v, s, n) for n in ('num', 'den')]
    return call(I, cl, a, kw, s)


def run_case(I, s, c):
    from .calls import spec_val
    g, k, x, mode = c
    where = CL + '%s.%s setter' % ('State' if isstate(g) else 'Transfer', k)
    I.eqbudget = 0
    v, s = build(I, s, g, 'a')
    x, s = spec_val(I, s, x, 'x')
    before = observe(I, v, s)
    w = None
    rs = rebuild(I, s, v, k, x)
    ok = [r for r in rs if not isinstance(r[0], Raise) and definite(r[1])]
    if ok:
        w, s = min(ok, key=lambda r: special(r[1]))
        want = observe(I, w, s)
    V = Verdict()
    for r, t in I.setattr_(v, k, x, s, None):
        if not definite(t):
            V.und('imprecise path')
            continue
        now = observe(I, v, t)
        if isinstance(r, Raise):
            if r.may:
                continue
            bad, unk = differ(before, now, t)
            if bad:
                V.bad('the rejected assignment (%s) changed %s' % (r.exc, ', '.join(bad)), where)
            elif isexc(r.exc, IMPLICIT) and not r.explicit:
                V.bad('the assignment ends in %s' % rdesc(r, I), construct(I, r))
            elif mode == 'must':
                V.bad('a valid assignment is rejected: %s' % rdesc(r, I), construct(I, r))
            elif unk:
                V.und('not comparable: ' + ', '.join(unk))
            else:
                V.ok('rejected, unchanged')
            continue
        if w is None:
            V.bad('an assignment is accepted that a constructor rejects', where)
            continue
        if mode == 'raise':
            V.bad('an assignment that does not fit the model is accepted', where)
            continue
        bad, unk = differ(want, now, t)
        unk = [u for u in unk if not (u in ('poles', 'zeros') and want[u] is None)]
        if bad:
            V.bad('%s differ from those of a model built from the new data' % ', '.join(bad), where)
        elif unk:
            V.und('not comparable: ' + ', '.join(unk))
        else:
            V.ok('equals the rebuilt model')
    return res(name(c), V, where)
