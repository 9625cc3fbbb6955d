"""The table of model-producing operations shared by several properties."""
from .common import *

SHAPES = [(1, 1), (2, 2), (1, 2), (2, 1), (2, 3)]
BIN = ('add', 'sub', 'mul', 'matmul', 'truediv')
SYM = {'add': '+', 'sub': '-', 'mul': '*', 'matmul': '@', 'truediv': '/'}
DUN = {'add': '__add__', 'sub': '__sub__', 'mul': '__mul__', 'matmul': '__matmul__', 'truediv': '__truediv__'}


def models(dt, shapes=SHAPES, n=2, kinds=('S', 'Sg', 'T', 'Tg')):
    out = []
    for k in kinds:
        for p, m in shapes:
            if k == 'S':
                out.append(('S', n, p, m, dt))
            else:
                out.append((k, p, m, dt))
    return out


def plain(shapes=SHAPES):
    return [('f',), ('i',)] + [('arr', sh) for sh in shapes]


VECTORS = [('arr', (2,)), ('arr', (1,)), ('arr', (3,)), ('arr', ())]


def asrow(spec):
    if ismodel(spec) or len(oshape(spec)) != 1:
        return spec
    return ('f',) if spec[1] == (1,) else ('arr', (1,) + tuple(spec[1]))


def with_vectors(ms):
    """operations of the models with one- and zero-dimensional arrays"""
    return [(o, l, r) for o in BIN for m in ms for v in VECTORS for l, r in ((m, v), (v, m))]


def redt(spec, dt):
    l = list(spec)
    l[4 if spec[0] == 'S' else 3] = dt
    return tuple(l)


def isgain(x):
    return x[0] in ('Sg', 'Tg') or not ismodel(x)


def single(x):
    return oshape(x) in ((), (1, 1), (1,))


def bshape(a, b):
    """numpy broadcast of two 2-tuples or None"""
    if a == ():
        return b
    if b == ():
        return a
    out = []
    for x, y in zip(a, b):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            return None
    return tuple(out)


def bin_expect(o, l, r):
    """-> (mode, shape) with mode in must/raise/either; shape None = not judged"""
    a, b = oshape(l), oshape(r)
    if len(a) == 1 or len(b) == 1:
        # a vector is a row; one with a single entry is a scalar
        mode, sh = bin_expect(o, asrow(l), asrow(r))
        return {'must': 'must' if o in ('mul', 'matmul') and (o == 'matmul' or isstate(l) or isstate(r)) else 'either'}.get(mode, mode), sh
    state = isstate(l) or isstate(r)
    if o in ('add', 'sub'):
        if not state and ('arr', ()) in (l, r):
            return 'either', (a or b)
        if a == b or a == () or b == ():
            return 'must', (a or b)
        if single(l) or single(r):
            # a Transfer refuses plain arrays of another shape, 1x1 included
            one = l if single(l) else r
            must = 'must' if state or ismodel(one) else 'either'
            return must, (b if single(l) else a)
        bs = bshape(a, b)
        if bs and (isgain(l) or isgain(r)):
            return 'either', bs
        return 'raise', None
    if o == 'mul' and not state:
        # elementwise product of transfer models
        if a == b or a == () or b == ():
            return 'must', (a or b)
        if single(l) or single(r):
            return 'must', (b if single(l) else a)
        return 'raise', None
    if o in ('mul', 'matmul'):
        if a == () or b == ():
            return 'must', (a or b)
        if a[1] == b[0]:
            return 'must', (a[0], b[1])
        if single(l) or single(r):
            return 'either', (b if single(l) else a)
        return 'raise', None
    if o == 'truediv':
        if b == ():
            return 'must', a
        if not ismodel(r):
            return 'skip', None
        if b[0] != b[1]:
            return 'raise', None
        if a == ():
            return 'either', b
        if a[1] == b[0]:
            return 'either', (a[0], b[1])
        if single(l) or single(r):
            return 'either', (b if single(l) else a)
        return 'raise', None
    raise ValueError(o)


def bin_where(o, l, r):
    c = l if ismodel(l) else r
    cl = 'State' if isstate(c) else 'Transfer'
    d = DUN[o] if ismodel(l) else DUN[o].replace('__', '__r', 1)
    return 'harold/_classes.py:%s.%s' % (cl, d)


def bin_name(o, l, r):
    return '%s %s %s' % (sname(l), SYM[o], sname(r))


def do_bin(I, s, o, l, r):
    a, s = build(I, s, l, 'a')
    b, s = build(I, s, r, 'b')
    return I.binop({'truediv': 'div'}.get(o, o), a, b, s, None)


def kind_expect(l, r):
    return 'State' if isstate(l) or isstate(r) else 'Transfer'


# ------------------------------------------------------------- other producers
def isopen(I, name):
    return I.public(name)


def mcall(I, s, v, meth, args=(), kw=None):
    out = []
    for f, t in I.getattr_(v, meth, s, None):
        if isinstance(f, Raise):
            out.append((f, t))
        else:
            out.extend(I.call(f, list(args), dict(kw or {}), t, None))
    return out


def getitem(I, s, v, key):
    return I.getitem_(v, key, s, None)


def slc(a=None, b=None, c=None):
    return SL(C(a), C(b), C(c))


INDEX = {           # label -> (key builder, shape function)
    '[:,0]': (lambda s: Tu([slc(), C(0)]), lambda p, m: (p, 1)),
    '[0,:]': (lambda s: Tu([C(0), slc()]), lambda p, m: (1, m)),
    '[0,0]': (lambda s: Tu([C(0), C(0)]), lambda p, m: (1, 1)),
    '[-1,-1]': (lambda s: Tu([C(-1), C(-1)]), lambda p, m: (1, 1)),
    '[1]': (lambda s: C(1), lambda p, m: (1, m)),
    '[:]': (lambda s: slc(), lambda p, m: (p, m)),
    '[0:1]': (lambda s: slc(0, 1), lambda p, m: (1, m)),
    '[:,:]': (lambda s: Tu([slc(), slc()]), lambda p, m: (p, m)),
    '[:,0:2]': (lambda s: Tu([slc(), slc(0, 2)]), lambda p, m: (p, 2)),
    '[0:2,1]': (lambda s: Tu([slc(0, 2), C(1)]), lambda p, m: (2, 1)),
    '[::-1,:]': (lambda s: Tu([slc(None, None, -1), slc()]), lambda p, m: (p, m)),
    '[[0,1],:]': (lambda s: Tu([s.new_list([C(0), C(1)]), slc()]), lambda p, m: (2, m)),
    '[:,[1,0]]': (lambda s: Tu([slc(), s.new_list([C(1), C(0)])]), lambda p, m: (p, 2)),
}

METHODS = ('zoh', 'tustin', 'bilinear', 'forward euler', 'backward euler', 'forward difference',
           'backward difference', 'foh', '>>', '<<', 'forward rectangular', 'backward rectangular', 'tustin')


class P:
    """one model-producing case: how to run it and what is expected"""
    __slots__ = ('label', 'fn', 'args', 'kind', 'shape', 'dt', 'mode', 'where', 'pick')

    def __init__(self, label, fn, args, kind, shape, dt, mode='must', where='', pick=None):
        self.label, self.fn, self.args = label, fn, args
        self.kind, self.shape, self.dt, self.mode, self.where, self.pick = kind, shape, dt, mode, where, pick


def producers(dts=('T', None), shapes=SHAPES, n=2):
    """unary producers, described by plain data so that cases pickle"""
    out = []

    def add(*a, **k):
        out.append(P(*a, **k))

    for dt in dts:
        for sp in models(dt, shapes, n):
            k = 'State' if isstate(sp) else 'Transfer'
            sh = oshape(sp)
            nm = sname(sp)
            add('-' + nm, 'neg', (sp,), k, sh, dt, where='harold/_classes.py:%s.__neg__' % k)
            for lab, (kb, sf) in INDEX.items():
                p, m = sh
                if '1' in lab.replace('-1', '').replace('0:1', '') or '0:2' in lab:
                    if lab in ('[1]', '[[0,1],:]', '[0:2,1]') and p < 2:
                        continue
                    if lab in ('[:,[1,0]]', '[0:2,1]', '[:,0:2]') and m < 2:
                        continue
                add(nm + lab, 'index', (sp, lab), k, sf(p, m), dt, where='harold/_classes.py:%s.__getitem__' % k)
            if isstate(sp):
                add('state_to_transfer(%s)' % nm, 'call', ('state_to_transfer', (sp,), {}), 'Transfer', sh, dt,
                    where='harold/_classes.py:state_to_transfer')
                add('hessenberg_realization(%s)' % nm, 'call', ('hessenberg_realization', (sp,), {}), 'State', sh, dt,
                    where='harold/_system_funcs.py:hessenberg_realization', mode='must' if sp[0] == 'S' else 'either')
                add('kalman_decomposition(%s)' % nm, 'call', ('kalman_decomposition', (sp,), {}), 'State', sh, dt,
                    where='harold/_system_props.py:kalman_decomposition')
            else:
                add('transfer_to_state(%s)' % nm, 'call', ('transfer_to_state', (sp,), {}), 'State', sh, dt,
                    where='harold/_classes.py:transfer_to_state')
            add('minimal_realization(%s)' % nm, 'call', ('minimal_realization', (sp,), {}), k, sh, dt,
                where='harold/_system_funcs.py:minimal_realization')
            if dt is None:
                for meth in ('zoh', 'foh', 'tustin', '>>', '<<'):
                    add('discretize(%s, T, %r)' % (nm, meth), 'call', ('discretize', (sp, ('dt', 'T')), {'method': meth}),
                        k, sh, 'T', where='harold/_discrete_funcs.py:discretize')
            else:
                for meth in ('zoh', 'tustin', '>>', '<<'):
                    add('undiscretize(%s, %r)' % (nm, meth), 'call', ('undiscretize', (sp,), {'method': meth}), k, sh,
                        None, where='harold/_discrete_funcs.py:undiscretize')
                add('undiscretize(%s)' % nm, 'call', ('undiscretize', (sp,), {}), k, sh, None,
                    where='harold/_discrete_funcs.py:undiscretize')
    for dt in dts:
        for p, m in ((1, 1), (2, 3)):
            add('random_state_model(2,%d,%d,dt=%s)' % (p, m, dt), 'call',
                ('random_state_model', (('c', 2), ('c', p), ('c', m)), {'dt': ('dt', dt)}), 'State', (p, m), dt,
                where='harold/_classes.py:random_state_model')
    return out


def feedbacks(dt, shapes=SHAPES):
    out = []
    ms = models(dt, shapes)
    for l in ms:
        for r in ms + [('f',), ('arr', (1, 1)), ('arr', (2, 2)), ('arr', (2, 1)), ('arr', (1, 2))]:
            a, b = oshape(l), oshape(r)
            if a == b[::-1] or (b == () and a == (1, 1)):
                k = kind_expect(l, r)
                out.append(P('feedback(%s, %s)' % (sname(l), sname(r)), 'call', ('feedback', (l, r), {}), k,
                             a, dt, where='harold/_bd_algebra.py:feedback'))
                if not ismodel(r):
                    out.append(P('feedback(%s, %s)' % (sname(r), sname(l)), 'call', ('feedback', (r, l), {}), k,
                                 a[::-1], dt, where='harold/_bd_algebra.py:feedback'))
    return out


def val(I, s, x, name):
    if isinstance(x, tuple):
        if x[0] == 'dt':
            return dtval(x[1]), s
        return build(I, s, x, name)
    return C(x), s


def do_producer(I, s, p):
    if p.fn == 'neg':
        a, s = build(I, s, p.args[0], 'a')
        return I.unary('neg', a, s, None)
    if p.fn == 'index':
        a, s = build(I, s, p.args[0], 'a')
        return getitem(I, s, a, INDEX[p.args[1]][0](s))
    f, args, kw = p.args
    av = []
    for i, x in enumerate(args):
        v, s = val(I, s, x, 'abcdefgh'[i])
        av.append(v)
    kv = {}
    for k, x in kw.items():
        kv[k], s = val(I, s, x, k)
    return call(I, f, av, kv, s)
