"""Shared driver layer: abstract operands, calls and observations."""
import itertools
import sys
import traceback

from absint import terms as tm
from absint import ext
from absint.interp import Interp, Limit, Broken
from absint.values import *

IMPLICIT = {'AttributeError', 'NameError', 'UnboundLocalError', 'TypeError', 'RecursionError', 'KeyError', 'IndexError',
            'ZeroDivisionError', 'AssertionError'}


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ summaries
def sum_tzeros(I, f, args, kw, s, n):
    """public transmission_zeros: a vector of complex numbers that depends on
    the four matrices only; never modifies them"""
    ts = []
    for a in args:
        r = ext.num(a, s)
        ts.append(r[0] if r is not None else tm.fresh('tz'))
    d = tz_count(ts)
    if d is None:
        d = tm.dimvar('nz', 0)
    return [(s.new_arr(tm.uf('tzeros', tuple(ts), (d,)), 'complex', (d,)), s)]


def tz_count(ts):
    """number of zeros in general position (SISO slices: relative degree one
    without feedthrough, zero with it)"""
    if len(ts) != 4 or any(t.shape is None or not tm.conc(t.shape) or len(t.shape) != 2 for t in ts):
        return None
    A, B, C, D = ts
    if D.shape != (1, 1) or A.shape[0] == 0:
        return None
    if tm.is_zero(D):
        if tm.is_zero(B) or tm.is_zero(C):
            return None
        return A.shape[0] - 1
    return A.shape[0]


def _monic(es):
    return tuple(tm.arith('div', e, es[0]) for e in es)


def _polymul(a, b):
    out = [tm.ZERO] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = tm.arith('add', out[i + j], tm.arith('mul', x, y))
    return tuple(out)


def sum_lcm(I, f, args, kw, s, n):
    """public haroldlcm on polynomials with pairwise no common roots (or
    identical ones): product of the distinct monic polynomials together with
    the complementary factors; arguments are not modified"""
    ps = []
    for a in args:
        r = ext.num(a, s)
        if r is None:
            try:
                r = ext.arrayify(I, a, s, None)
            except Exception:
                return None
        t, sh, dt = r
        if sh is None or not tm.conc(sh) or tm.nelem(sh) < 1 or sum(1 for d in sh if d != 1) > 1:
            return None
        ps.append(_monic(tm.entries(t)))
    dyn = []
    for q in ps:
        if len(q) > 1 and q not in dyn:
            dyn.append(q)
    lcm = (tm.ONE,)
    for q in dyn:
        lcm = _polymul(lcm, q)
    lv = s.new_arr(tm.lit(lcm, (len(lcm),)), 'float')
    if ext.truthy(kw.get('compute_multipliers', TRUE)) is False:
        return [(lv, s)]
    ms = []
    for q in ps:
        m = (tm.ONE,)
        for o in dyn:
            if o != q:
                m = _polymul(m, o)
        ms.append(s.new_arr(tm.lit(m, (len(m),)), 'float'))
    return [(Tu([lv, s.new_list(ms)]), s)]


def _ufs(s, name, args, shape, dt='float'):
    return s.new_arr(tm.uf(name, tuple(args), tuple(shape)), dt, tuple(shape))


def sum_staircase(I, f, args, kw, s, n):
    """public staircase: three matrices of the given sizes and a square
    transformation, functions of the arguments; arguments are not modified"""
    ts = []
    for a in list(args[:3]) + [kw[k] for k in ('A', 'B', 'C') if k in kw]:
        r = ext.num(a, s)
        if r is None or r[1] is None or len(r[1]) != 2 or not tm.conc(r[1]):
            return None
        ts.append(r[0])
    if len(ts) != 3 or len(args) > 3:
        return None
    tag = '%s/%s' % (repr(kw.get('form')), repr(kw.get('invert')))
    if any(k not in ('form', 'invert', 'A', 'B', 'C') for k in kw):
        return None
    A, B, Cm = ts
    if A.shape[0] != A.shape[1] or B.shape[0] != A.shape[0] or Cm.shape[1] != A.shape[0] or 0 in A.shape:
        return None
    return [(Tu([_ufs(s, 'stair_a' + tag, ts, A.shape), _ufs(s, 'stair_b' + tag, ts, B.shape),
                 _ufs(s, 'stair_c' + tag, ts, Cm.shape), _ufs(s, 'stair_t' + tag, ts, A.shape)]), s)]


def sum_cancel(I, f, args, kw, s, n):
    """public cancellation_distance: five numbers; arguments not modified"""
    ts = []
    for a in args:
        r = ext.num(a, s)
        if r is None or r[1] is None or len(r[1]) != 2 or not tm.conc(r[1]):
            return None
        ts.append(r[0])
    if len(ts) != 2 or ts[0].shape[0] != ts[0].shape[1] or ts[0].shape[0] != ts[1].shape[0] or not ts[0].shape[0]:
        return None
    return [(Tu([N('float', tm.uf('cancel%d' % i, tuple(ts), ())) for i in range(5)]), s)]


SUMMARIES = {'staircase': sum_staircase, 'cancellation_distance': sum_cancel, 'transmission_zeros': sum_tzeros, 'haroldlcm': sum_lcm}


ALL_SUMMARIES = SUMMARIES


def new_interp(root='/repo', summaries=True, without=()):
    I = Interp(root)
    I.load_all()
    I.S0.fork()
    I.S0.heap = Heap({}, dict(I.S0.heap))
    if summaries:
        for k in SUMMARIES:
            I.public(k)
            if k not in without:
                I.summaries[k] = SUMMARIES[k]
    return I


# -------------------------------------------------------------------- operands
DTS = {'T': ('T',), 'T2': ('T2',)}


def dtval(d):
    """sampling period values: None, number, or symbolic positive number"""
    if d is None:
        return NONE
    if isinstance(d, str):
        return N('float', tm.leaf(d, (), ('pos',)))
    return C(d)


def A_(s, name, sh, dt='float', facts=()):
    if tm.conc(sh) and tm.nelem(sh) == 0:
        return s.new_arr(tm.lit((), sh), dt, sh)
    return s.new_arr(tm.leaf(name, tuple(sh), tuple(facts)), dt, tuple(sh))


def Aent(s, name, sh, dt='float', facts=('nonzero',)):
    """array of individually named entries"""
    es = [tm.leaf('%s%s' % (name, ''.join('_%d' % i for i in ii)), (), tuple(facts)) for ii in tm._indices(sh)]
    return s.new_arr(tm.lit(es, tuple(sh)), dt, tuple(sh))


def poly(s, name, n, lead='nonzero'):
    es = []
    for i in range(n):
        es.append(N('float', tm.leaf('%s_%d' % (name, i), (), (lead,) if i == 0 else ())))
    return s.new_list(es)


def call(I, f, args, kw, s):
    if isinstance(f, str):
        f = I.public(f)
    return I.call(f, list(args), dict(kw or {}), s, None)


def good(rs, what=''):
    """the definite, non-raising outcome that assumes least about the data"""
    ok = [(v, t) for v, t in rs if not isinstance(v, Raise)]
    nv = [x for x in ok if x[1].vague == 0]
    if not ok:
        raise Undecided('operand %s cannot be built: %s' % (what, rs[0][0] if rs else '?'))
    return min(nv or ok, key=lambda x: special(x[1]))


def special(s):
    """number of assumptions that do not hold for data in general position"""
    k = 0
    for c, pol in s.assume.items():
        g = ext.generic_truth(c)
        if g is not None and g != pol:
            k += 1
    return k


def made(rs, what=''):
    """as good, for constructors: what the constructor only needed to know to compute derived data is not assumed later"""
    v, t = good(rs, what)
    for c, pol in list(t.assume.items()):
        if ext.generic_truth(c) is None and any(not isinstance(w, Raise) and not u.vague and u.assume.get(c, pol) != pol for w, u in rs):
            del t.assume[c]
    return v, t


def build(I, s, spec, name):
    """operand from a spec tuple -> (value, state); its data are in general position"""
    b, I.eqbudget = I.eqbudget, 0
    try:
        return build_(I, s, spec, name)
    finally:
        I.eqbudget = b


def build_(I, s, spec, name):
    k = spec[0]
    if k == 'S':                       # dynamic state model n, p, m, dt
        _, n, p, m, dt = spec[:5]
        kw = {'dt': dtval(dt)} if dt is not None else {}
        D = A_(s, name + 'D', (p, m)) if len(spec) < 6 else s.new_arr(tm.zeros((p, m)), 'float')
        return made(call(I, 'State', [A_(s, name + 'A', (n, n)), A_(s, name + 'B', (n, m)), A_(s, name + 'C', (p, n)), D],
                         kw, s), spec)
    if k == 'Sg':
        _, p, m, dt = spec
        kw = {'dt': dtval(dt)} if dt is not None else {}
        return made(call(I, 'State', [A_(s, name + 'D', (p, m))], kw, s), spec)
    if k == 'T':                       # dynamic transfer: p, m, dt, (num len, den len)
        _, p, m, dt = spec[:4]
        ln, ld = spec[4] if len(spec) > 4 else (2, 3)
        kw = {'dt': dtval(dt)} if dt is not None else {}
        if p == m == 1:
            return made(call(I, 'Transfer', [poly(s, name + 'n', ln), poly(s, name + 'd', ld)], kw, s), spec)
        num = s.new_list([s.new_list([poly(s, '%sn%d%d' % (name, i, j), ln) for j in range(m)]) for i in range(p)])
        den = s.new_list([s.new_list([poly(s, '%sd%d%d' % (name, i, j), ld) for j in range(m)]) for i in range(p)])
        return made(call(I, 'Transfer', [num, den], kw, s), spec)
    if k == 'Tg':
        _, p, m, dt = spec
        kw = {'dt': dtval(dt)} if dt is not None else {}
        if p == m == 1:
            return made(call(I, 'Transfer', [N('float', tm.leaf(name + 'n', (), ('nonzero',))),
                                             N('float', tm.leaf(name + 'd', (), ('nonzero',)))], kw, s), spec)
        num = s.new_list([s.new_list([poly(s, '%sn%d%d' % (name, i, j), 1) for j in range(m)]) for i in range(p)])
        den = s.new_list([s.new_list([poly(s, '%sd%d%d' % (name, i, j), 1) for j in range(m)]) for i in range(p)])
        return made(call(I, 'Transfer', [num, den], kw, s), spec)
    if k == 'f':
        return N('float', tm.leaf(name, (), ('nonzero',))), s
    if k == 'i':
        return N('int', tm.leaf(name, (), ('nonzero',))), s
    if k == 'c':
        return C(spec[1]), s
    if k == 'arr':
        return Aent(s, name, spec[1]), s
    if k == 'iarr':
        return Aent(s, name, spec[1], 'int'), s
    raise ValueError(spec)


def oshape(spec):
    """(outputs, inputs) of an operand spec"""
    k = spec[0]
    if k == 'S':
        return spec[2], spec[3]
    if k in ('Sg', 'T', 'Tg'):
        return spec[1], spec[2]
    if k in ('arr', 'iarr'):
        return tuple(spec[1])
    return ()


def odt(spec):
    k = spec[0]
    if k == 'S':
        return spec[4]
    if k in ('Sg', 'T', 'Tg'):
        return spec[3]
    return 'any'


def ismodel(spec):
    return spec[0] in ('S', 'Sg', 'T', 'Tg')


def isstate(spec):
    return spec[0] in ('S', 'Sg')


def sname(spec):
    k = spec[0]
    d = odt(spec)
    ds = '' if d in (None, 'any') else ',dt=%s' % d
    if k == 'S':
        return 'State(%dx%d,n=%d%s%s)' % (spec[2], spec[3], spec[1], ds, '' if len(spec) < 6 else ',D=0')
    if k == 'Sg':
        return 'State-gain(%dx%d%s)' % (spec[1], spec[2], ds)
    if k == 'T':
        return 'Transfer(%dx%d%s%s)' % (spec[1], spec[2], ds, '' if len(spec) < 5 else ',deg=%s' % (spec[4],))
    if k == 'Tg':
        return 'Transfer-gain(%dx%d%s)' % (spec[1], spec[2], ds)
    if k in ('f', 'i'):
        return {'f': 'float', 'i': 'int'}[k]
    if k == 'c':
        return repr(spec[1])
    return '%s%s' % ({'arr': 'array', 'iarr': 'int-array'}[k], 'x'.join(map(str, spec[1])))


# ---------------------------------------------------------------- observations
def cls_of(v, s):
    if isinstance(v, R):
        h = s.heap.get(v.id)
        if isinstance(h, HInst):
            return h.cls.name
    return None


def attr(I, v, s, name):
    """value of a public attribute; a single definite outcome is required"""
    rs = I.getattr_(v, name, s, None)
    rs = [x for x in rs if not (isinstance(x[0], Raise) and x[0].may)]
    if not rs:
        raise Undecided('attribute %s' % name)
    if any(isinstance(x[0], Raise) for x in rs):
        if all(isinstance(x[0], Raise) for x in rs):
            raise Undecided('attribute %s raises %s' % (name, rs[0][0]))
    ok = [x for x in rs if not isinstance(x[0], Raise)]
    if len(ok) > 1 and any(ok[0][0] != x[0] for x in ok[1:]):
        raise Undecided('attribute %s is ambiguous' % name)
    return ok[0][0]


def term(v, s):
    r = ext.num(v, s)
    if r is None:
        if isinstance(v, R):
            try:
                r = ext.arrayify(None, v, s, None)
            except Exception:
                return None
        else:
            return None
    return r[0]


def subst_assume(s):
    """substitution defs from equality assumptions leaf == 0"""
    defs = {}
    for c, b in s.assume.items():
        pass
    return defs


def eqv(a, b, s):
    """abstract equality of two scalars/None: True False None"""
    if isinstance(a, UV):
        r = {eqv(x, b, s) for x in a.alts}
        return r.pop() if len(r) == 1 else None
    if isinstance(a, Top) or isinstance(b, Top):
        return None
    if isinstance(a, C) and isinstance(b, C):
        return a.v == b.v and (a.v is None) == (b.v is None)
    an, bn = isinstance(a, C) and a.v is None, isinstance(b, C) and b.v is None
    if an or bn:
        return an and bn
    ta, tb = term(a, s), term(b, s)
    if ta is None or tb is None:
        return None if (isinstance(a, Top) or isinstance(b, Top)) else False
    if ta is tb:
        return True
    for c, pol in s.assume.items():
        if pol and c.op == 'uf' and c.args[0] == 'eq' and {c.args[1], c.args[2]} == {ta, tb}:
            return True
    return tm.same(ta, tb)


def shape_of(I, v, s):
    """public shape as python ints; None entries when not concrete"""
    sh = attr(I, v, s, 'shape')
    if isinstance(sh, Tu):
        out = []
        for x in sh.items:
            k = ext.cint(x)
            out.append(k)
        return tuple(out)
    return None


def construct(I, r):
    """name of the construct an outcome comes from"""
    if isinstance(r, Raise):
        return '%s:%s:%s' % (modpath(r.mod), r.fn, getattr(r.node, 'lineno', '?'))
    return ''


def modpath(mod):
    return (mod or '?').replace('.', '/') + '.py'


class Out:
    """one abstract outcome of a case"""
    __slots__ = ('v', 's')

    def __init__(self, v, s):
        self.v, self.s = v, s

    @property
    def raised(self):
        return self.v if isinstance(self.v, Raise) else None


def run(I, f):
    """interpret f() -> [(v,S)] with a fresh budget"""
    I.steps = 0
    I.depth = 0
    I.fnstack = []
    I.handlers = []
    I.visited = set()
    return f()


# ---------------------------------------------------------------------- judging
ERRSUB = {'LinAlgError': 'ValueError', 'UnboundLocalError': 'NameError', 'RecursionError': 'RuntimeError',
          'IndexError': 'LookupError', 'KeyError': 'LookupError', 'ZeroDivisionError': 'ArithmeticError',
          'ModuleNotFoundError': 'ImportError', 'UnicodeError': 'ValueError', 'NotImplementedError': 'RuntimeError'}


def isexc(name, kinds):
    while name:
        if name in kinds:
            return True
        name = ERRSUB.get(name)
    return False


def definite(s):
    return s.vague == 0


class Verdict(list):
    """collects (status, message, where)"""

    def ok(self, msg=''):
        self.append(('ok', msg, ''))

    def bad(self, msg, where=''):
        self.append(('violation', msg, where))

    def und(self, msg=''):
        self.append(('undecided', msg, ''))

    def status(self):
        st = [x[0] for x in self]
        if 'violation' in st:
            return 'violation'
        if 'ok' in st and 'undecided' not in st:
            return 'ok'
        if 'ok' in st:
            return 'undecided'
        return 'undecided'


def res(key, v, where=''):
    from .framework import Res
    st = v.status()
    if st == 'violation':
        b = [x for x in v if x[0] == 'violation']
        msgs = []
        for x in b:
            if x[1] not in msgs:
                msgs.append(x[1])
        return Res(st, key, '; '.join(msgs[:3]), b[0][2] or where)
    if st == 'undecided':
        b = [x for x in v if x[0] in ('undecided', 'skip')]
        return Res(st, key, '; '.join(x[1] for x in b[:2]) or 'no outcome', '')
    return Res(st, key, '; '.join(sorted({x[1] for x in v if x[1]}))[:200], '')


def rdesc(r, I):
    return '%s at %s' % (r.exc + ((': ' + str(r.msg)[:80]) if r.msg else ''), construct(I, r))


def judge(I, rs, pred, must='return', raises=('ValueError',), where='', free=False):
    """rs: outcomes [(v, S)].
    must='return': a definite path has to return and satisfy pred; an exception of kind
        `raises` is accepted when a data condition led to it;
    must='raise': every definite path has to raise one of `raises`;
    must='either': returning paths satisfy pred, raising ones raise one of `raises`.
    pred(v, s) -> True | False | None | (bool, message)"""
    V = Verdict()
    if not rs:
        V.und('no outcome')
    nret = 0
    blocked = []
    for v, s in rs:
        if isinstance(v, Raise):
            if not definite(s):
                V.und('exception %s on an imprecise path' % v.exc)
            elif v.may:
                pass
            elif isexc(v.exc, raises):
                if must == 'return':
                    if s.assume or free:
                        blocked.append(v)
                    else:
                        V.bad('must succeed but raises %s' % rdesc(v, I), construct(I, v))
                else:
                    V.ok('raises %s' % v.exc)
            else:
                V.bad('raises %s' % rdesc(v, I), construct(I, v))
            continue
        if isinstance(v, Top):
            V.und('unknown value returned')
            continue
        if not definite(s):
            try:
                r = pred(v, s) if pred else True
            except Undecided as e:
                r = None
            V.und('imprecise path')
            continue
        nret += 1
        if must == 'raise':
            V.bad('returns a value where %s is required' % '/'.join(raises), where)
            continue
        try:
            r = pred(v, s) if pred else True
        except Undecided as e:
            V.und(str(e))
            continue
        msg = ''
        if isinstance(r, tuple):
            r, msg = r
        if r is True:
            V.ok(msg)
        elif r is None:
            V.und(msg or 'not decided')
        elif r == 'skip':
            V.append(('skip', msg, ''))
        else:
            V.bad(msg or 'wrong result', where)
    if must == 'return' and blocked and not nret and not any(x[0] == 'undecided' for x in V):
        V.bad('every path raises %s' % rdesc(blocked[0], I), construct(I, blocked[0]))
    return V


def judge_values(I, rs, pred, where=''):
    """judge only the returning paths (exceptions are other properties' business)"""
    V = Verdict()
    for v, s in rs:
        if isinstance(v, Raise):
            continue
        if isinstance(v, Top) or not definite(s):
            V.und('imprecise path')
            continue
        try:
            r = pred(v, s)
        except Undecided as e:
            V.und(str(e))
            continue
        r, msg = r if isinstance(r, tuple) else (r, '')
        if r is True:
            V.ok(msg)
        elif r is None:
            V.und(msg or 'not decided')
        elif r == 'skip':
            V.append(('skip', msg, ''))
        else:
            V.bad(msg or 'wrong result', where)
    if not V:
        V.und('no returning path')
    return V


def judge_total(I, rs, pred, where=''):
    """as judge_values, for calls that have to return"""
    V = judge_values(I, rs, pred, where)
    if V and V[0][0] == 'undecided' and V[0][1] == 'no returning path':
        del V[:]
    for v, s in rs:
        if isinstance(v, Raise) and definite(s) and not v.may:
            V.bad('%s%s is raised' % (v.exc, ': ' + str(v.msg) if v.msg else ''), v.fn and '%s:%s' % (v.mod, v.fn) or where)
    if not V:
        V.und('no returning path')
    return V


def show(v):
    if isinstance(v, C):
        return repr(v.v)
    if isinstance(v, N):
        return str(v.term)[:60]
    return type(v).__name__
