"""C31 subscripting a model selects exactly the named channels."""
from .formula import *

RULE = ('value numbering: for every subscript form the transfer matrix of G[...] has to be the corresponding rows and '
        'columns of the transfer matrix of G (outputs first, inputs second); out-of-range indices have to raise '
        'IndexError')
ANCHORS = ('State', 'Transfer')
MIN = {'quick': 250}

FORMS = ['0', '1', '-1', '2', ':', '0:1', '1:', ':-1', '::-1', '::2', '[0]', '[1]', '[0,1]', '[1,0]', '[-1]', '[0,0]']


def py(f):
    if f.startswith('['):
        return [int(x) for x in f[1:-1].split(',')]
    if ':' in f:
        return slice(*[int(x) if x else None for x in f.split(':')])
    return int(f)


def key(s, f):
    k = py(f)
    if isinstance(k, list):
        return s.new_list([C(x) for x in k])
    if isinstance(k, slice):
        return SL(C(k.start), C(k.stop), C(k.step))
    return C(k)


def pick(f, n):
    """selected positions, or None when out of range"""
    k = py(f)
    r = list(range(n))
    try:
        if isinstance(k, list):
            return [r[i] for i in k]
        return r[k] if isinstance(k, slice) else [r[k]]
    except IndexError:
        return None


def cases(tier):
    out = []
    ms = [('S', 2, p, m, 'T') for p, m in ((1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1))]
    ms += [('Sg', p, m, 'T') for p, m in ((1, 1), (2, 2), (2, 3), (3, 2))]
    ms += [('T', p, m, 'T', (1, 2)) for p, m in ((1, 1), (2, 2), (2, 3), (3, 2), (1, 3))]
    ms += [('Tg', p, m, 'T') for p, m in ((1, 1), (2, 2), (2, 3))]
    for sp in ms:
        p, m = oshape(sp)
        for f in FORMS:
            out.append((sp, f, None))
        for f in FORMS:
            for g in FORMS:
                a, b = pick(f, p), pick(g, m)
                if a == [] or b == []:
                    continue
                if (a is None or b is None) and not (f in '012' and g in '012'):
                    continue
                out.append((sp, f, g))
    return out


def name(c):
    return '%s[%s]' % (sname(c[0]), c[1] if c[2] is None else '%s, %s' % c[1:])


def run_case(I, s, c):
    sp, f, g = c
    a, s = build(I, s, sp, 'a')
    G = gz(I, a, s)
    p, m = oshape(sp)
    r = pick(f, p)
    q = list(range(m)) if g is None else pick(g, m)
    where = 'harold/_classes.py:%s.__getitem__' % ('State' if isstate(sp) else 'Transfer')
    rs = getitem(I, s, a, key(s, f) if g is None else Tu([key(s, f), key(s, g)]))
    if r is None or q is None:
        return res(name(c), judge(I, rs, None, 'raise', ('IndexError',), where=where), where)
    if not r or not q:
        raise Undecided('empty selection')
    es = tm.entries(G) if G.op == 'lit' else None
    want = tm.lit([es[i * m + j] for i in r for j in q], (len(r), len(q))) if es is not None else \
        tm.getflat(G, [i * m + j for i in r for j in q], (len(r), len(q)))

    def pred(v, t):
        if cls_of(v, t) is None:
            return None, 'not a model'
        h = gz(I, v, t)
        if h.shape != want.shape:
            return False, 'the selection has shape %s instead of %s' % (h.shape, want.shape)
        if cls_of(v, t) == 'Transfer' and want.shape == (1, 1):
            for w in ('num', 'den'):
                x = attr(I, v, t, w)
                if not isinstance(x, A) or x.shape is None or len(x.shape) != 2:
                    return False, 'the %s of the selected single channel is not a 2-D array' % w
        k = agree(t, h, want)
        return (True, 'selected channels') if k else (None, 'not comparable') if k is None else \
            (False, 'the selected model has other channels than asked for')
    return res(name(c), judge(I, rs, pred, 'return', where=where), where)
