"""C40 controllability indices."""
from .kalman import *

RULE = ('value numbering: the orthogonalization is interpreted exactly in GF(p) for every column order the pivoting may choose; the indices are '
        'the lengths of the chains of the case, in general position the balanced lengths of the controllable part, in some order')
ANCHORS = ('controllability_indices',)
MIN = {'quick': 50}
CASE_SECONDS = 120
WH = 'harold/_system_props.py:controllability_indices'
# lengths of decoupled chains, one per input
CHAINS = ((1,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3), (0, 1), (1, 0), (2, 0), (0, 2), (3, 0), (0, 3),
          (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 0, 1), (0, 1, 2), (2, 2, 1), (1, 0, 2))
# shapes that do not fit
BAD = (((2, 3), (2, 1)), ((3, 2), (3, 1)), ((2, 2), (3, 1)), ((2, 2), (1, 2)), ((2, 2), (2,)), ((2,), (2, 1)))


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for st in STRUCT[n]:
            for m in (1, 2, 3):
                for x in ('array', 'list'):
                    if x == 'array' or n < 3 and m < 3:
                        out.append(('general', st, m, x))
                if m > 1:
                    out.append(('dependent', st, m, 'array'))
    out += [('general', (4, 0, 0, 0), m, 'array') for m in (1, 2, 3)]
    out += [('chain', x, len(x), 'array') for x in CHAINS]
    out += [('free', x, len(x), 'array') for x in CHAINS if len(x) < 3 and sum(x) < 4]
    out += [('bad', x, 0, '') for x in BAD]
    return out


def name(c):
    f, st, m, x = c
    if f == 'bad':
        return 'controllability_indices(A %s, B %s)' % st
    d = {'chain': 'chains of lengths %s', 'free': 'chains of lengths %s and a free mode'}
    return 'controllability_indices(%s%s)' % (d[f] % ', '.join(map(str, st)) if f in d else
                                              'structure %s, %d %schannels' % ('+'.join(map(str, st)), m, 'dependent ' if f == 'dependent' else ''),
                                              ', lists' if x == 'list' else '')


def chains(ls, free):
    n, m = sum(ls) + free, len(ls)
    a, b, at = [[tm.ZERO] * n for _ in range(n)], [[tm.ZERO] * m for _ in range(n)], 0
    for j, k in enumerate(ls):
        for i in range(k):
            if i:
                a[at + i][at + i - 1] = tm.leaf('a%d%d' % (j, i), (), ('nonzero',))
            else:
                b[at][j] = tm.leaf('b%d' % j, (), ('nonzero',))
        at += k
    if free:
        a[n - 1][n - 1] = tm.leaf('f', (), ('nonzero',))
    return tuple(tm.lit([e for r in x for e in r], (n, len(x[0]))) for x in (a, b))


def run_case(I, s, c):
    f, st, m, form = c
    I.general, I.eqbudget, I.limit = True, 0, 4000000
    if f == 'bad':
        rs = call(I, 'controllability_indices', [arr(s, tm.leaf(x, sh)) for x, sh in zip('AB', st)], {}, s)
        return res(name(c), refused(rs), WH)
    want = list(st)
    if f in ('chain', 'free'):
        a, b = chains(st, f == 'free')
    else:
        a, b, _ = data(st, 1, 1 if f == 'dependent' else m)
        k = rank(st, 'c')
        want = [0] * m
        for i in range(k):
            want[0 if f == 'dependent' else i % m] += 1
        if f == 'dependent':
            # every further column is a multiple of the first
            n = sum(st)
            b = tm.lit([tm.arith('mul', tm.entries(b)[i], tm.leaf('k%d' % j, (), ('nonzero',))) for i in range(n) for j in range(m)], (n, m))
    if form == 'list':
        args = [s.new_list([s.new_list([N('float', e) for e in tm.entries(t)[i * t.shape[1]:(i + 1) * t.shape[1]]]) for i in range(t.shape[0])])
                for t in (a, b)]
    else:
        args = [arr(s, a), arr(s, b)]
    rs = call(I, 'controllability_indices', args, {}, s)

    def pred(v, t):
        x = known(v, t, None)
        if x.shape != (m,):
            return False, 'the result has shape %s for %d inputs' % (x.shape, m)
        es = [tm.constval(e) for e in tm.entries(x)]
        if None in es:
            return None, 'undetermined indices'
        if f in ('chain', 'free'):
            return es == want, 'the indices are %s, the chains have lengths %s' % (es, want)
        return sorted(es) == sorted(want), 'the indices are %s, in some order they should be %s' % (es, want)
    return res(name(c), judge_total(I, rs, pred, WH), WH)


def refused(rs):
    V = Verdict()
    for v, t in rs:
        if not isinstance(v, Raise):
            V.bad('arguments that do not fit are accepted')
        else:
            V.ok('refused')
    return V
