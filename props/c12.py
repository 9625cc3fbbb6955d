"""C12 frequency response values, shape and grid."""
from .formula import *

RULE = ('value numbering: entry (i, j, k) of the response is the transfer matrix entry at j*w_k, or at exp(j*w_k*T) for discrete '
        'models, compared by random interpretation in GF(p)[i]; the shape is (outputs, inputs, frequencies), flat for SISO; the '
        'returned grid is the given one in the requested unit')
ANCHORS = ('frequency_response',)
MIN = {'quick': 100}
CASE_SECONDS = 60
WH = 'harold/_frequency_domain.py:frequency_response'
PI2 = tm.arith('mul', tm.const(2), ext.PI.term)
UNITS = ('rad/s', 'Hz')


def specs():
    out = []
    for dt in (None, 'T'):
        out += [('S', n, p, m, dt) for n in (1, 2) for p, m in ((1, 1), (2, 2), (1, 2), (2, 1))]
        out += [('S', 2, 2, 3, dt), ('S', 3, 1, 1, dt), ('S', 3, 2, 1, dt), ('S', 2, 2, 2, dt, 'D0'), ('S', 2, 1, 1, dt, 'D0')]
        out += [('T', 1, 1, dt, d) for d in ((1, 2), (2, 3), (3, 3))]
        out += [('T', p, m, dt, (2, 3)) for p, m in ((2, 2), (1, 2), (2, 1), (2, 3))]
        out += [(k, p, m, dt) for k in ('Sg', 'Tg') for p, m in ((1, 1), (2, 2), (1, 2), (2, 1), (2, 3))]
    return out


def cases(tier):
    out = []
    for g in specs():
        for f in ('arr2', 'arr3'):
            out.append((g, f, None, None))
        if oshape(g) in ((1, 1), (2, 2)) and g[:2] != ('S', 3):
            for f in ('arr1', 'list2', 'scalar', 'row2', 'col2'):
                out.append((g, f, None, None))
            for u in ('rad/s', 'Hz', 'hz', 'RAD/S', 'HZ'):
                for o in ('rad/s', 'Hz', 'hz', 'RAD/S', None):
                    out.append((g, 'arr2', u, o))
            out.append((g, 'arr2', None, 'rad/s'))
    for z in ZERO:
        for dt in (None, 'T'):
            out.append((('Sz', z, 1, 1, dt), 'zero2', 'rad/s', None))
    return out


# realizations with vanishing entries, regular at zero frequency: rows of A, c
ZERO = {'0a|b0, c=01': ('0ab0', '01'), '0a|b0, c=10': ('0ab0', '10'), '0a|bd, c=01': ('0abd', '01'), 'da|b0, c=10': ('dab0', '10'),
        '0a|bd, c=11': ('0abd', '11'), '0a0|00b|d00, c=001': ('0a000bd00', '001'), '0a0|00b|d00, c=100': ('0a000bd00', '100'),
        '00a|b00|0d0, c=010': ('00ab000d0', '010'), '0a0|b0d|0e1, c=001': ('0a0b0d0e1', '001')}


def zero_state(I, s, g):
    A_, c = ZERO[g[1]]
    n = len(c)
    L = lambda k, ch: tm.ZERO if ch == '0' else tm.leaf('z%s%d' % (k, ord(ch)), (), ('nonzero',))
    a = s.new_arr(tm.lit([L('a', ch) for ch in A_], (n, n)), 'float', (n, n))
    b = s.new_arr(tm.lit([tm.leaf('zb%d' % i, (), ('nonzero',)) for i in range(n)], (n, 1)), 'float', (n, 1))
    c = s.new_arr(tm.lit([tm.ZERO if ch == '0' else tm.leaf('zc%d' % i, (), ('nonzero',)) for i, ch in enumerate(c)], (1, n)), 'float', (1, n))
    return good(call(I, 'State', [a, b, c], {'dt': N('float', tm.leaf('T', (), ('pos',)))} if g[4] else {}, s), 'State')


def name(c):
    return 'frequency_response(%s, w=%s%s%s)' % ('State(%s%s)' % (c[0][1], ', dt=T' if c[0][4] else '') if c[0][0] == 'Sz' else sname(c[0]), c[1], ', w_unit=%r' % c[2] if c[2] else '',
                                               ', output_unit=%r' % c[3] if c[3] else '')


def grid(s, f):
    k = int(f[-1]) if f[-1].isdigit() else 1
    es = [tm.leaf('w%d' % i, (), ('pos', 'nonzero')) for i in range(k)]
    if f.startswith('zero'):
        es[0] = tm.ZERO
    if f == 'scalar':
        return N('float', es[0]), es
    if f.startswith('list'):
        return s.new_list([N('float', e) for e in es]), es
    sh = (1, k) if f.startswith('row') else (k, 1) if f.startswith('col') else (k,)
    return s.new_arr(tm.lit(es, sh), 'float', sh), es


def cexp(t):
    """exp of a term as the interpreter writes it"""
    return tm.uf('zexp', (t,), ())


def run_case(I, s, c):
    g, f, u, o = c
    I.eqbudget = 1
    I.maskfork = 3
    if g[0] == 'Sz':
        I.general = True
        a, s = zero_state(I, s, g)
    else:
        a, s = build(I, s, g, 'a')
    w, es = grid(s, f)
    kw = {}
    if u:
        kw['w_unit'] = C(u)
    if o:
        kw['output_unit'] = C(o)
    rs = call(I, 'frequency_response', [a, w], kw, s)
    ws = [tm.arith('mul', e, PI2) for e in es] if (u or 'Hz').lower() == 'hz' else es
    outw_ = [tm.arith('div', e, PI2) for e in ws] if (o or 'Hz').lower() == 'hz' else ws
    jw = [tm.arith('mul', e, tm.const(1j)) for e in ws]
    dt, (p, m) = (g[4], (1, 1)) if g[0] == 'Sz' else (odt(g), oshape(g))
    if dt is not None:
        ez = [ext.num(I_exp(I, N('complex', tm.arith('mul', e, tm.leaf('T', (), ('pos',)))), s), s)[0] for e in jw]
        pts = ez
    else:
        pts = jw
    want_ = [gz(I, a, s, z) for z in pts]
    all_ = len(es)

    def pred(v, t):
        if not isinstance(v, Tu) or len(v.items) != 2:
            return False, 'not a pair (response, grid)'
        fr, wg = term(v.items[0], t), term(v.items[1], t)
        for x in (fr, wg):
            if x is None or x.shape is None or not tm.conc(x.shape):
                return None, 'unknown shape'
        keep = list(range(all_))
        if dt is not None and wg.shape != (all_,):
            # frequencies beyond Nyquist are left out
            cs = [beyond(e, t) for e in ws]
            if None in cs:
                return 'skip', 'frequencies beyond Nyquist'
            keep = [i for i in keep if not cs[i]]
        K = len(keep)
        outw, want = [outw_[i] for i in keep], [want_[i] for i in keep]
        if wg.shape != (K,):
            return False, 'the grid has shape %s instead of (%d,)' % (wg.shape, K)
        sh = (K,) if (p, m) == (1, 1) else (p, m, K)
        if fr.shape != sh:
            return False, 'the response has shape %s instead of %s' % (fr.shape, sh)
        r = agree(t, wg, tm.lit(outw, (K,)))
        if not r:
            return (r, 'the grid is not in the requested unit') if r is False else (None, 'grid not comparable')
        fe = tm.entries(fr)
        es_ = [tm.entries(want[k])[i * m + j] for i in range(p) for j in range(m) for k in range(K)]
        r = agree(t, tm.lit(fe, (p * m * K,)), tm.lit(es_, (p * m * K,)))
        if r is None and g[0] == 'Sz' and any(divides_by_zero(x, t) for x in fe):
            return False, 'a division by zero is made although the frequencies are no poles'
        if r is None:
            return ('skip', 'special data') if not path_defs(t)[1] else (None, 'not comparable')
        return (r, 'same values') if r else (False, 'the response differs from the transfer matrix at the grid points')
    return res(name(c), (judge_total if g[0] == 'Sz' else judge_values)(I, rs, pred, WH), WH)


def divides_by_zero(t, s):
    for x in tm.walk(t):
        if x.op == 'div':
            try:
                if any(agree(s, e, tm.ZERO) for e in tm.entries(x.args[1])):
                    return True
            except Exception:
                pass
    return False


def beyond(w, t):
    """is w above the Nyquist frequency on this path: True / False / None"""
    nyq = tm.arith('div', ext.PI.term, tm.leaf('T', (), ('pos',)))
    c = ext.cmp_scalar('lt', nyq, w)
    if isinstance(c, bool):
        return c
    pol = True
    while c.op == 'not':
        c, pol = c.args[0], not pol
    k = t.assume.get(c)
    if k is None:
        k = ext.decide(c, t)
    return None if k is None else k == pol


def I_exp(I, v, s):
    from absint.ext import REG
    return REG['numpy.exp'](I, [v], {}, s, None)[0][0]
