"""C33 polynomial helpers satisfy their defining identities."""
from .kalman import *

RULE = ('value numbering: coefficients returned for a sum, product, quotient and remainder, list of roots or least common multiple are '
        'evaluated at an indeterminate and compared with the defining identity; the characteristic polynomial of a companion matrix '
        'with the monic polynomial; multipliers times the (monic) arguments with the common multiple')
ANCHORS = ('haroldpolyadd', 'haroldpolymul', 'haroldpolydiv', 'haroldcompanion', 'haroldpoly', 'haroldlcm', 'haroldgcd')
MIN = {'quick': 100}
CASE_SECONDS = 120
WH = 'harold/_polynomial_ops.py:'
# leading zeros written as '0', coefficients as 'x', trailing zeros as 'o'
POLYS = ('x', 'xx', 'xxx', '0x', '00xx', 'xxo', 'xo', '0')
# polynomials by the names of their roots; digits are constants, capital letters scale
LCMS = [('a', 'b'), ('a', 'a'), ('Ka', 'b'), ('Ka', 'Lb'), ('ab', 'c'), ('ab', 'bc'), ('a', 'ab'), ('Kab', 'a'), ('a', 'K'), ('K', 'ab'),
        ('a', 'b', 'c'), ('a', 'b', 'a'), ('a', 'b', 'ab'), ('a', 'a', 'a'), ('ab',), ('Ka',), ('K', 'L'), ('a', 'K', 'b'), ('K', 'a', 'L', 'b'),
        ('aa', 'a'), ('aab', 'ab'), ('0a', 'b'), ('ab', 'ac', 'bc'), ('K', '0a'),
        ('a', 'b', 'c', 'd'), ('ab', 'c', 'ad', 'K'), ('abc', 'bcd'), ('Kab', 'La', 'bc'), ('aa', 'aab'), ('abc', 'd')]

GCDS = [('a', 'b'), ('a', 'a'), ('Ka', 'La'), ('ab', 'b'), ('Kab', 'Lbc'), ('ab', 'cd'), ('ab', 'ab'), ('abc', 'bc'), ('abc', 'abd'), ('aab', 'aa'),
        ('aab', 'ac'), ('a', 'K'), ('K', 'Lab'), ('K', 'L'), ('a', 'b', 'K'), ('ab', 'b', 'bc'), ('abc', 'abd', 'ab'), ('abc', 'abd', 'ae'), ('ab', 'ac', 'bc'),
        ('abc', 'bcd', 'cde'), ('a', 'ab', 'ac', 'ad'), ('0ab', 'b'), ('00a', '0K'), ('ab', 'ac', 'K'), ('abcd', 'ab', 'cd'), ('abcd', 'abe', 'abf'),
        ('ao', 'bo'), ('aoo', 'oo'), ('ao', 'b'), ('abo', 'boo', 'o')]


def cases(tier):
    out = []
    for f in ('add', 'mul'):
        for kind in ('array', 'list', 'int'):
            for x in POLYS:
                for y in POLYS:
                    for trim in (True, False):
                        if trim or f == 'add' or kind == 'array':
                            out.append((f, (x, y), kind, trim))
            out += [(f, (x,), kind, True) for x in POLYS]
            out += [(f, t, kind, True) for t in (('xx', 'xxx', 'x'), ('x', '0x', 'xx'), ('xx', '0', 'xx'), ('0', 'xx', 'xx'), ('xx', 'x', '0'), ('x', 'xx', 'xxx', 'xx'), ('xxx', 'x', 'xx', 'x', 'xxxx'),
                                                      ('xx',) * 6, ('x', '0x', 'xxxxx', '00xx'), ('xxo', 'xx', 'x', 'xo', 'xxx'))]
            out += [(f, (x, y), kind, True) for x in ('xxxxx', 'xxxxxx', 'xoxxo') for y in ('x', 'xx', 'xxxx', 'xxxxxx')]
    out += [('add', ('xx', 'neg'), k, t) for k in ('array', 'list') for t in (True, False)]
    for kind in ('array', 'list', 'int'):
        for x in ('x', 'xx', 'xxx', 'xxxx', 'xxo', 'xxxxx', 'xxxxxx', 'xoox'):
            for y in ('x', 'xx', 'xxx', 'xxxx', 'xox'):
                out.append(('div', (x, y), kind, None))
        for x in ('x', 'xx', 'xxx', 'xxxx', '0xx', '00xxx', 'xxo', 'xo', 'xxxxx', 'xxxxxx', 'xooo', 'xxoox'):
            out.append(('companion', (x,), kind, None))
        out += [('poly', (k,), kind, None) for k in range(7)]
    out += [('companion', (x,), 'row', None) for x in ('xx', 'xxx', '0xx')]
    out += [('poly', (k,), kd, None) for k in range(6) for kd in ('tuple', 'complex')]
    for l in LCMS:
        for kind in ('array', 'list'):
            out += [('lcm', l, kind, m) for m in (True, False)]
    for l in GCDS:
        for kind in ('array', 'list'):
            out.append(('gcd', l, kind, None))
    return out


def name(c):
    f, xs, kind, o = c
    fn = {'add': 'haroldpolyadd', 'mul': 'haroldpolymul', 'div': 'haroldpolydiv', 'companion': 'haroldcompanion', 'poly': 'haroldpoly',
          'lcm': 'haroldlcm', 'gcd': 'haroldgcd'}[f]
    return '%s(%s as %s%s)' % (fn, ', '.join(map(str, xs)), kind,
                             ', trim_zeros=False' if f in ('add', 'mul') and not o else ', no multipliers' if f == 'lcm' and not o else '')


def coeffs(spec, i, kind):
    k = ('int',) if kind == 'int' else ()
    return [tm.const(0) if ch in '0o' else tm.leaf('p%d_%d' % (i, j), (), k + ('nonzero',)) for j, ch in enumerate(spec)]


def root(ch):
    return tm.ZERO if ch == 'o' else tm.leaf('r' + ch, (), ('nonzero',))


def from_roots(spec):
    """(coefficients, monic coefficients, number of leading zeros)"""
    lead, es = tm.ONE, [tm.ONE]
    z = 0
    for ch in spec:
        if ch == '0':
            z += 1
        elif ch.isupper():
            lead = tm.leaf('k' + ch, (), ('nonzero',))
        else:
            r = root(ch)
            es = [tm.arith('sub', a, tm.arith('mul', r, b)) for a, b in zip(es + [tm.ZERO], [tm.ZERO] + es)]
    return [tm.ZERO] * z + [tm.arith('mul', lead, e) for e in es], es


def value(s, es, kind):
    dt = 'int' if kind == 'int' else 'complex' if kind == 'complex' else 'float'
    if kind == 'list':
        return s.new_list([N(dt, e) if e.op != 'const' else C(e.args[0]) for e in es])
    if kind == 'tuple':
        return Tu([N(dt, e) for e in es])
    sh = (1, len(es)) if kind == 'row' else (len(es),)
    return s.new_arr(tm.lit(es, sh), dt, sh)


def flat(v, s):
    t = known(v, s, None)
    if len(t.shape) != 1:
        raise Undecided('not a vector')
    return list(tm.entries(t))


def at(es):
    return horner(es, Z_) if es else tm.ZERO


def prod(ts):
    out = tm.ONE
    for t in ts:
        out = tm.arith('mul', out, t)
    return out


def run_case(I, s, c):
    f, xs, kind, o = c
    I.general, I.eqbudget = True, 0
    saved, I.summaries = I.summaries, {}
    try:
        return run(I, s, c, f, xs, kind, o)
    finally:
        I.summaries = saved


def run(I, s, c, f, xs, kind, o):
    fn = name(c).split('(')[0]
    where = WH + fn
    kw = {}
    monic = None
    if f == 'poly':
        cs = [[tm.leaf('r%d' % j, (), ('complex',) if kind == 'complex' else ()) for j in range(xs[0])]]
    elif f in ('lcm', 'gcd'):
        two = [from_roots(x) for x in xs]
        cs, monic = [t[0] for t in two], [t[1] for t in two]
        if f == 'lcm' and not o:
            kw['compute_multipliers'] = C(False)
    else:
        cs = [coeffs(x, i, kind) if x != 'neg' else None for i, x in enumerate(xs)]
        cs = [[tm.neg(e) for e in cs[0]] if x is None else x for x in cs]
        if f in ('add', 'mul') and not o:
            kw['trim_zeros'] = C(False)
    rs = call(I, fn, [value(s, x, kind) for x in cs], kw, s)
    ps = [at(x) for x in cs]

    def pred(v, t):
        F = Facts(t)
        if f == 'add':
            e = tm.ZERO
            for p in ps:
                e = tm.arith('add', e, p)
            F.eq(at(flat(v, t)), e, 'the result is not the sum')
        elif f == 'mul':
            F.eq(at(flat(v, t)), prod(ps), 'the result is not the product')
        elif f == 'div':
            if not isinstance(v, Tu) or len(v.items) != 2:
                return False, 'the result is not a pair'
            q, r = (seq(x, t) for x in v.items)
            F.eq(ps[0], tm.arith('add', tm.arith('mul', at(q), ps[1]), at(r)), 'dividend differs from factor * divisor + remainder')
            if len(cs[0]) >= len(cs[1]):
                F.true(len(r) < len(cs[1]), 'the remainder has %d coefficients' % len(r))
        elif f == 'companion':
            m = known(v, t, None)
            es = [e for e in cs[0]]
            while es and tm.is_zero(es[0]):
                es.pop(0)
            n = len(es) - 1
            if n == 0:
                return m.shape == (0,) or 0 in m.shape, 'the matrix of a constant is not empty'
            if m.shape != (n, n):
                return False, 'the matrix has shape %s for degree %d' % (m.shape, n)
            d = tm.uf('det', (tm.arith('sub', tm.arith('mul', Z_, tm.eye(n)), m),), ())
            F.eq(tm.arith('mul', es[0], d), ps[0], 'the characteristic polynomial is not the given one')
        elif f == 'poly':
            es = flat(v, t)
            F.true(len(es) == xs[0] + 1, 'there are %d coefficients for %d roots' % (len(es), xs[0]))
            F.eq(at(es), prod([tm.arith('sub', Z_, r) for r in cs[0]]), 'the polynomial does not have the given roots')
        elif f == 'gcd':
            es = flat(v, t)
            names = [[ch for ch in x if ch.islower()] for x in xs]
            common = sorted(ch for w in set(names[0]) for ch in [w] * min(n.count(w) for n in names))
            F.true(len(es) == len(common) + 1, 'the divisor has %d coefficients instead of %d' % (len(es), len(common) + 1))
            F.eq(at(es), prod([tm.arith('sub', Z_, root(ch)) for ch in common]), 'the result is not the monic greatest common divisor')
        else:
            l, ms = v, None
            if o:
                if not isinstance(v, Tu) or len(v.items) != 2:
                    return False, 'the result is not a pair'
                l, ms = v.items
            l = flat(l, t)
            roots = {}
            for x in xs:
                for ch in set(x):
                    if ch.islower():
                        roots[ch] = max(roots.get(ch, 0), x.count(ch))
            want = prod([tm.arith('sub', Z_, tm.leaf('r' + ch, (), ('nonzero',))) for ch in sorted(roots) for _ in range(roots[ch])])
            F.true(len(l) == sum(roots.values()) + 1, 'the common multiple has %d coefficients' % len(l))
            F.eq(at(l), want, 'the result is not the monic least common multiple')
            if ms is not None:
                ms = seq(ms, t)
                if len(ms) != len(xs):
                    return False, '%d multipliers for %d arguments' % (len(ms), len(xs))
                for x, m, mc in zip(xs, ms, monic):
                    F.eq(tm.arith('mul', at(flat(m, t)), at(mc)), want, 'the multiplier of %s does not give the common multiple' % x)
        return F.done()
    return res(name(c), judge_total(I, rs, pred, where), where)


def seq(v, s):
    """items of a list, or the entries of a vector"""
    r = rows(v, s)
    if r is not None:
        return [x if isinstance(x, (A, R, Tu)) else known(x, s, None) for x in r]
    return flat(v, s)
