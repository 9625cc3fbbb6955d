"""C24 the constructors build the model their arguments describe."""
from .formula import *

RULE = ('value numbering: the constructed model has the transfer matrix (Transfer) or the matrices (State) that the arguments spell out, '
        'its shape, float data and gain status; arguments that describe no causal model or do not fit together are refused')
ANCHORS = ('Transfer', 'State')
MIN = {'quick': 200}
CASE_SECONDS = 60
WT = 'harold/_classes.py:Transfer.validate_arguments'
WS = 'harold/_classes.py:State.validate_arguments'
NO = ('none',)


L = lambda pat, kind='f': ('list', pat, kind)


def transfer_cases():
    out = []
    # single channel: every form of the numerator against every form of the denominator
    def forms(pat):
        r = [('list', pat, 'f'), ('list', pat, 'i'), ('a1', pat, 'f'), ('a1', pat, 'i'), ('row', pat, 'f'), ('nest', ('list', pat, 'f')),
             ('nest', ('a1', pat, 'f'))]
        if len(pat) == 1:
            r += [('num', pat, 'f'), ('num', pat, 'i'), ('nest', ('num', pat, 'f'))]
        return r
    for a in forms('xy'):
        for b in forms('xyy'):
            out.append((a, b))
    for a in forms('x'):
        for b in forms('xy'):
            out.append((a, b))
        for b in forms('x')[::2]:
            out.append((a, b))
        out += [(a, NO), (NO, a)]
    for k in ('list', 'a1', 'row'):
        for pn, pd in (('0x', 'xy'), ('0x', 'x'), ('00xy', 'xy'), ('xy', '0xy'), ('xy', '0x'), ('xyy', '0xy'), ('00', 'xy'), ('0', 'xy'),
                       ('0', 'x'), ('000', 'xy'), ('xyy', 'xy'), ('xy', 'x'), ('0xyy', 'xy'), ('x', '0'), ('x', '00'), ('0', '0'),
                       ('xy', '00'), ('x0', 'x0'), ('x', 'x00'), ('0x0', '0x0y')):
            out.append(((k, pn, 'f'), (k, pd, 'f')))
            if k != 'list':
                out.append(((k, pn, 'f'), ('list', pd, 'f')))
                out.append((('list', pn, 'f'), (k, pd, 'f')))
        out += [((k, 'xy', 'f'), NO), (NO, (k, 'xy', 'f'))]
    out += [(('nest', ('list', pn, 'f')), ('nest', ('list', pd, 'f'))) for pn, pd in
            (('0x', 'xy'), ('0x', 'x'), ('xyy', '0xy'), ('00', 'xy'), ('xy', '0x'), ('x', '00'))]
    out += [(('num', '0', 'f'), L('xy')), (L('xy'), ('num', '0', 'f')), (('num', 'x', 'f'), ('num', '0', 'f')), (NO, ('num', '0', 'f')), (NO, NO)]
    # several channels
    for p, m in ((2, 2), (1, 2), (2, 1), (2, 3), (3, 2)):
        def mat(pats, kind='list', t='f'):
            return ('mat', tuple(tuple((kind, pats[(i * m + j) % len(pats)], t) for j in range(m)) for i in range(p)))
        out += [(mat(('xy',)), mat(('xyy',))), (mat(('xy', 'x')), mat(('xyy', 'xy'))), (mat(('x', 'xy'), 'a1'), mat(('xy',), 'a1')),
                (mat(('x',), 'num'), mat(('xy',))), (mat(('x',), 'num', 'i'), mat(('x',), 'num', 'i')), (mat(('x',), 'num'), NO),
                (mat(('x',), 'num'), L('xy')), (mat(('xy', 'x')), L('xyy')), (mat(('xy', 'x')), ('a1', 'xyy', 'f')),
                (mat(('x',), 'num'), ('num', 'x', 'f')), (L('xy'), mat(('xyy', 'xy'))), (('num', 'x', 'f'), mat(('xyy', 'xy'))),
                (('a1', 'xy', 'f'), mat(('xy',))), (NO, mat(('xy',))), (('num', '0', 'f'), mat(('xy',))),
                (mat(('0x', 'x')), mat(('xy',))), (mat(('0x', '00')), mat(('x',))), (mat(('0x', 'x')), NO), (mat(('xy',)), NO),
                (mat(('0x',)), L('x')), (mat(('0xy', 'x')), L('xy')), (mat(('xy', 'x')), L('0xyy')), (mat(('xy', 'x')), ('a1', '0xyy', 'f')),
                (L('0xy'), mat(('xy',))), (L('xy'), mat(('xyy', '0xy'))), (L('xy'), mat(('xyy', '0x'))), (mat(('xy', 'x')), mat(('xy', '0xy'))),
                (mat(('xy', 'x')), mat(('0x', 'xy'))), (mat(('x',)), mat(('0x',))),
                (mat(('xyy', 'x')), mat(('xy',))), (mat(('x', 'xyy')), mat(('xy',))), (mat(('xyy', 'x')), L('xy')), (L('xyy'), mat(('xy', 'xyy'))),
                (mat(('x',)), mat(('0', 'x'))), (mat(('x',)), mat(('x', '0'))), (mat(('0',)), mat(('0', 'x'))), (mat(('x',)), L('00')),
                (mat(('xy',)), ('num', '0', 'f'))]
        out += [(('gm', p, m, k), d) for k in ('f', 'i') for d in (NO, L('xy'), ('a1', 'xy', 'f'), ('num', 'x', 'f'), mat(('xy',)))
                if p > 1 or d == NO]
        out += [(('gm', p, m, 'c'), NO)]
    out += [(('gm', 2, 2, 'f'), ('gm', 2, 2, 'f')), (L('xy'), ('gm', 2, 2, 'f')), (L('x'), ('gm', 2, 2, 'f'))]
    m22, m12, m21, m23 = [('mat', tuple(tuple(L('xy') for j in range(m)) for i in range(p))) for p, m in ((2, 2), (1, 2), (2, 1), (2, 3))]
    out += [(a, b) for a in (m22, m12, m21, m23) for b in (m22, m12, m21, m23) if a != b]
    rag = ('mat', ((L('xy'), L('xy')), (L('xy'),)))
    out += [(rag, m22), (m22, rag), (rag, L('xy')), (rag, NO), (('gm', 2, 3, 'f'), m22)]
    # no real polynomials
    for b in (('a1', 'x', 'c'), ('list', 'x', 'c'), ('num', 'x', 'c'), ('row', 'xy', 'c'), ('str',), ('dict',), ('nest', ('list', 'xy', 'c')),
              ('mat', ((('list', 'xy', 'c'), L('xy')),)), ('a3',)):
        out += [(b, L('xyy')), (L('x'), b), (b, NO)]
    seen, r = set(), []
    for c in out:
        if c not in seen:
            seen.add(c)
            r.append(('T',) + c)
    return r


def state_cases():
    out = []
    for n, p, m in ((1, 1, 1), (2, 1, 1), (2, 2, 2), (2, 1, 2), (2, 2, 1), (3, 2, 1), (3, 1, 2), (3, 2, 3), (3, 3, 2), (1, 2, 2), (1, 2, 1), (1, 1, 2)):
        for k, t in (('arr', 'f'), ('arr', 'i'), ('ll', 'f'), ('ll', 'i')):
            A_, B_, C_, D_ = (k, (n, n), t), (k, (n, m), t), (k, (p, n), t), (k, (p, m), t)
            out += [(A_, B_, C_, D_), (A_, B_, C_, NO)]
        A_, B_, C_, D_ = [('arr', x, 'f') for x in ((n, n), (n, m), (p, n), (p, m))]
        if n == 1:
            out += [(('sc', (), t), B_, C_, D_) for t in 'fi']
        if n == 1 and m == 1:
            out += [(A_, ('sc', (), 'f'), C_, D_)]
        if p == 1 and n == 1:
            out += [(A_, B_, ('sc', (), 'f'), D_)]
        if p == m == 1:
            out += [(A_, B_, C_, ('sc', (), t)) for t in 'fi']
            if n == 1:
                out += [(('sc', (), t),) * 4 for t in 'fi'] + [(('sc', (), 'f'),) * 3 + (NO,)]
        for k in ('arr', 'll'):
            if m == 1:
                out += [(A_, (k, (n,), 'f'), C_, D_)]
            if p == 1:
                out += [(A_, B_, (k, (n,), 'f'), D_), (A_, B_, C_, (k, (m,), 'f'))]
            if m == 1:
                out += [(A_, B_, C_, (k, (p,), 'f'))]
        # misfits
        for i, bad in ((0, (n, n + 1)), (0, (n + 1, n)), (0, (n + 1, n + 1)), (1, (n + 1, m)), (1, (n + 2, m)), (2, (p, n + 1)), (2, (p, n + 2)),
                       (3, (p + 1, m)), (3, (p, m + 1)), (3, (p + 1, m + 1)), (3, (m + 1, p + 1))):
            x = [A_, B_, C_, D_]
            x[i] = ('arr', bad, 'f')
            out.append(tuple(x))
        # matrices given in transposed form, a vector input apart
        for i, bad in ((1, (m, n)), (2, (n, p)), (3, (m, p))):
            x = [A_, B_, C_, D_]
            if bad[0] != bad[1] and not (i != 2 and bad[0] == 1):
                x[i] = ('arr', bad, 'f')
                out.append(tuple(x))
        if p != m:
            if min(p, m) > 1:
                out.append((A_, B_, C_, ('arr', (m, p), 'f')))
        out += [(A_, B_, NO, NO), (A_, NO, C_, NO), (NO, B_, C_, D_), (A_, NO, NO, D_), (NO, B_, C_, NO), (A_, B_, NO, D_), (A_, NO, C_, D_)]
        for i in range(4):
            x = [A_, B_, C_, D_]
            for t in (('arr', x[i][1], 'c'), ('ll', x[i][1], 'c'), ('str',), ('dict',)):
                y = list(x)
                y[i] = t
                out.append(tuple(y))
    for p, m in ((1, 1), (2, 2), (1, 2), (2, 1), (3, 2)):
        for k, t in (('arr', 'f'), ('arr', 'i'), ('ll', 'f'), ('ll', 'i'), ('arr', 'c'), ('ll', 'c')):
            out += [((k, (p, m), t), NO, NO, NO), (NO, NO, NO, (k, (p, m), t))]
        if p == 1:
            out += [((k, (m,), 'f'), NO, NO, NO) for k in ('arr', 'll')] + [(NO, NO, NO, (k, (m,), 'f')) for k in ('arr', 'll')]
    out += [(('sc', (), t), NO, NO, NO) for t in 'fic'] + [(NO, NO, NO, ('sc', (), t)) for t in 'fic']
    out += [(('str',), NO, NO, NO), (('dict',), NO, NO, NO), (('rag',), NO, NO, NO), (NO, NO, NO, ('rag',))]
    seen, r = set(), []
    for c in out:
        if c not in seen:
            seen.add(c)
            r.append(('S',) + c)
    return r


def cases(tier):
    return transfer_cases() + state_cases()


KIND = {'f': 'float', 'i': 'int', 'c': 'complex'}


def sp(a):
    k = a[0]
    if k in ('none', 'str', 'dict', 'a3', 'rag'):
        return {'none': 'None', 'str': "'1'", 'dict': '{}', 'a3': '3-D array', 'rag': 'ragged list'}[k]
    if k == 'nest':
        return '[[%s]]' % sp(a[1])
    if k == 'mat':
        return '[%s]' % ','.join('[%s]' % ','.join(sp(x) for x in r) for r in a[1])
    if k == 'gm':
        return '%dx%d %sarray' % (a[1], a[2], {'f': '', 'i': 'int ', 'c': 'complex '}[a[3]])
    if k in ('arr', 'll'):
        return '%s%s %s' % ({'f': '', 'i': 'int ', 'c': 'complex '}[a[2]], 'x'.join(map(str, a[1])), {'arr': 'array', 'll': 'list'}[k])
    if k == 'sc':
        return KIND[a[2]]
    t = {'f': '', 'i': ' int', 'c': ' complex'}[a[2]]
    return {'num': '%s%s', 'list': '[%s]%s', 'a1': 'array[%s]%s', 'row': 'array[[%s]]%s'}[k] % (a[1], t)


def name(c):
    if c[0] == 'T':
        return 'Transfer(%s, %s)' % (sp(c[1]), sp(c[2]))
    return 'State(%s)' % ', '.join(sp(x) for x in c[1:])


# ----------------------------------------------------------- building arguments
def coefs(pat, nm):
    return [tm.ZERO if ch == '0' else tm.leaf('%s_%d' % (nm, i), (), ('nonzero',) if ch == 'x' else ()) for i, ch in enumerate(pat)]


def number(e, kind):
    if e is tm.ZERO:
        return C({'f': 0.0, 'i': 0, 'c': 0j}[kind])
    return N(KIND[kind], e)


def arg(s, a, nm):
    """-> (abstract value, meaning); meaning: None, 'bad', coefficient list or matrix (list of lists) of them"""
    k = a[0]
    if k == 'none':
        return NONE, None
    if k == 'str':
        return C('1'), 'bad'
    if k == 'dict':
        return s.new_dict(), 'bad'
    if k == 'a3':
        return s.new_arr(tm.leaf(nm, (1, 1, 2)), 'float', (1, 1, 2)), 'bad'
    if k == 'nest':
        v, mean = arg(s, a[1], nm)
        return s.new_list([s.new_list([v])]), mean
    if k == 'mat':
        vs, ms = [], []
        for i, r in enumerate(a[1]):
            row = [arg(s, x, '%s%d%d' % (nm, i, j)) for j, x in enumerate(r)]
            vs.append(s.new_list([v for v, _ in row]))
            ms.append([x for _, x in row])
        if any(x == 'bad' for r in ms for x in r) or len({len(r) for r in ms}) > 1:
            return s.new_list(vs), 'bad'
        return s.new_list(vs), ('mat', ms)
    if k == 'gm':
        _, p, m, t = a
        es = [[tm.leaf('%s%d%d' % (nm, i, j), (), ('nonzero',)) for j in range(m)] for i in range(p)]
        v = s.new_arr(tm.lit([e for r in es for e in r], (p, m)), KIND[t], (p, m))
        return v, 'bad' if t == 'c' else ('mat', [[[e] for e in r] for r in es])
    es = coefs(a[1], nm)
    if k == 'num':
        v = number(es[0], a[2])
    elif k == 'list':
        v = s.new_list([number(e, a[2]) for e in es])
    else:
        sh = (len(es),) if k == 'a1' else (1, len(es))
        v = s.new_arr(tm.lit(es, sh), KIND[a[2]], sh)
    return v, 'bad' if a[2] == 'c' else es


def trim(es):
    k = 0
    while k < len(es) - 1 and es[k] is tm.ZERO:
        k += 1
    return es[k:]


def described(a, n, d):
    """the fractions described by numerator and denominator, or None"""
    if n == 'bad' or d == 'bad' or (n is None and d is None):
        return None
    if a[1][0] == 'row' and d is None:
        n = ('mat', [[[e] for e in n]])
    mats = [isinstance(x, tuple) for x in (n, d)]
    if any(mats):
        ref = (n if mats[0] else d)[1]
        p, m = len(ref), len(ref[0])
        n, d = [x[1] if isinstance(x, tuple) else [[x if x is not None else [tm.ONE]] * m for i in range(p)] for x in (n, d)]
        if (len(n), len(n[0])) != (len(d), len(d[0])):
            return None
    else:
        n, d = [[[x if x is not None else [tm.ONE]]] for x in (n, d)]
    n, d = [[[trim(e) for e in r] for r in x] for x in (n, d)]
    for rn, rd in zip(n, d):
        for x, y in zip(rn, rd):
            if y[0] is tm.ZERO or len(x) > len(y):
                return None
    return n, d


def run_case(I, s, c):
    I.general, I.eqbudget = True, 0
    return run_transfer(I, s, c) if c[0] == 'T' else run_state(I, s, c)


def isfloat(v, s):
    if isinstance(v, A):
        return v.dtype in ('float', None)
    rs = rows(v, s)
    return rs is not None and all(isfloat(x, s) for x in rs)


def run_transfer(I, s, c):
    nv, nm = arg(s, c[1], 'n')
    dv, dm = arg(s, c[2], 'd')
    want = described(c, nm, dm)
    rs = call(I, 'Transfer', [nv, dv], {}, s)
    if want is None:
        return res(name(c), judge(I, rs, None, must='raise', raises=('ValueError', 'IndexError'), where=WT), WT)
    n, d = want
    p, m = len(n), len(n[0])
    W = transfer_term(n, d)
    gain = all(len(e) == 1 for r in d for e in r)

    def pred(v, t):
        if shape_of(I, v, t) != (p, m):
            return False, 'the shape is %s instead of %s' % (shape_of(I, v, t), (p, m))
        for w, x in (('num', n), ('den', d)):
            q = attr(I, v, t, w)
            if not isfloat(q, t):
                return False, 'the %s does not hold floats' % {'num': 'numerator', 'den': 'denominator'}[w]
            es = numden(I, v, t, w)
            if [[len(trim(e)) for e in r] for r in es] != [[len(e) for e in r] for r in x]:
                return False, 'the degrees of %s differ from the given ones' % w
        r = agree(t, gz(I, v, t), W)
        if r is not True:
            return r, 'the transfer matrix is not the described one'
        z = call(I, I.getattr_(v, 'to_array', t, None)[0][0], [], {}, t)
        if gain:
            q, t2 = good(z, 'to_array')
            r = agree(t2, term(q, t2), W)
            return r, 'a static gain does not act as one'
        if not all(isinstance(x[0], Raise) for x in z):
            return False, 'a dynamic model is taken for a static gain'
        return True
    return res(name(c), judge(I, rs, pred, where=WT), WT)


# ------------------------------------------------------------------ state models
def sarg(s, a, nm):
    k = a[0]
    if k == 'none':
        return NONE, None
    if k == 'str':
        return C('1'), 'bad'
    if k == 'dict':
        return s.new_dict(), 'bad'
    if k == 'rag':
        f = lambda n: N('float', tm.leaf(n, ()))
        return s.new_list([s.new_list([f('r0'), f('r1')]), s.new_list([f('r2')])]), 'bad'
    sh, t = a[1], a[2]
    if k == 'sc':
        e = tm.leaf(nm, ())
        return N(KIND[t], e), 'bad' if t == 'c' else tm.lit([e], (1, 1))
    es = [tm.leaf('%s%d' % (nm, i), ()) for i in range(tm.nelem(sh))]
    T = tm.lit(es, sh)
    if k == 'arr':
        v = s.new_arr(T, KIND[t], sh)
    elif len(sh) == 1:
        v = s.new_list([N(KIND[t], e) for e in es])
    else:
        v = s.new_list([s.new_list([N(KIND[t], e) for e in es[i * sh[1]:(i + 1) * sh[1]]]) for i in range(sh[0])])
    return v, 'bad' if t == 'c' else T


def matrices(x):
    """the four matrices described by the arguments, or None"""
    if any(isinstance(t, str) for t in x):
        return None
    E = tm.lit((), (0, 0))
    up = lambda t: tm.lit(tm.entries(t), (1,) + t.shape) if t is not None and len(t.shape) == 1 else t
    a, b, c, d = x
    if b is c is d is None:
        return E, E, E, up(a)
    if a is b is c is None:
        return E, E, E, up(d)
    if a is None or b is None or c is None:
        return None
    a, c = up(a), up(c)
    if a.shape[0] != a.shape[1]:
        return None
    n = a.shape[0]
    if len(b.shape) == 1:
        b = tm.lit(tm.entries(b), (n, 1) if b.shape[0] == n else (1,) + b.shape)
    if b.shape[0] != n:
        return None
    if c.shape[1] != n:
        return None
    p, m = c.shape[0], b.shape[1]
    if d is None:
        d = tm.zeros((p, m))
    elif len(d.shape) == 1:
        if d.shape[0] != p * m or 1 not in (p, m):
            return None
        d = tm.lit(tm.entries(d), (p, m))
    if d.shape != (p, m):
        return None
    return a, b, c, d


def run_state(I, s, c):
    vs = [sarg(s, a, k) for a, k in zip(c[1:], 'ABCD')]
    want = matrices([t for _, t in vs])
    args = [v for v, _ in vs]
    rs = call(I, 'State', args, {}, s)
    if want is None:
        return res(name(c), judge(I, rs, None, must='raise', raises=('ValueError',), where=WS), WS)

    def pred(v, t):
        sh = want[3].shape
        if shape_of(I, v, t) != sh:
            return False, 'the shape is %s instead of %s' % (shape_of(I, v, t), sh)
        for k, w in zip('abcd', want):
            q = attr(I, v, t, k)
            g = mterm(I, v, t, k)
            if not isfloat(q, t):
                return False, 'the %s matrix does not hold floats' % k
            if tm.nelem(w.shape) == 0 and tm.nelem(g.shape) == 0:
                continue
            if g.shape != w.shape:
                return False, 'the %s matrix is %s instead of %s' % (k, g.shape, w.shape)
            r = agree(t, g, w)
            if r is not True:
                return r, 'the %s matrix is not the given one' % k
        z = call(I, I.getattr_(v, 'to_array', t, None)[0][0], [], {}, t)
        if want[0].shape == (0, 0):
            q, t2 = good(z, 'to_array')
            return agree(t2, term(q, t2), want[3]), 'a static gain does not act as one'
        if not all(isinstance(x[0], Raise) for x in z):
            return False, 'a dynamic model is taken for a static gain'
        return True
    return res(name(c), judge(I, rs, pred, where=WS), WS)

