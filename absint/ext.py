"""Abstract semantics of Python's builtin types and of the external
libraries: kinds, shapes, aliasing, effects and value numbers."""
import builtins as _bi
import itertools
import math

from . import terms as tm
from .sigs import SIGS
from .values import *
from .terms import ShapeError

ORDER = ['bool', 'int', 'float', 'complex']
REG = {}            # canonical external path -> handler(I, args, kw, s, n)
METH = {}           # array method name -> handler(I, a, args, kw, s, n)
CONSTS = {}

PI = N('float', tm.leaf('pi', (), ('pos',)))


def reg(*paths):
    def d(f):
        for p in paths:
            REG[p] = f
        return f
    return d


def meth(*names):
    def d(f):
        for p in names:
            METH[p] = f
        return f
    return d


CANON = {'numpy.linalg.linalg': 'numpy.linalg', 'numpy.core': 'numpy', 'scipy.linalg._decomp': 'scipy.linalg',
         'numpy.linalg._umath_linalg': 'numpy.linalg.umath', 'numpy.lib.scimath': 'numpy.emath',
         'numpy.matlib': 'numpy', 'numpy.core.numeric': 'numpy', 'scipy.linalg.misc': 'scipy.linalg'}


def canon(p):
    for k, v in CANON.items():
        if p.startswith(k + '.'):
            p = v + p[len(k):]
    return p


CVALS = {'numpy.pi': PI, 'math.pi': PI, 'numpy.inf': C(float('inf')), 'numpy.Inf': C(float('inf')),
         'math.inf': C(float('inf')), 'numpy.PINF': C(float('inf')), 'numpy.NINF': C(float('-inf')),
         'numpy.nan': C(float('nan')), 'numpy.NaN': C(float('nan')), 'math.nan': C(float('nan')),
         'numpy.newaxis': NONE, 'numpy.e': N('float', tm.leaf('e', (), ('pos',))),
         'math.e': N('float', tm.leaf('e', (), ('pos',))),
         'builtins.None': NONE, 'builtins.True': TRUE, 'builtins.False': FALSE, 'builtins.Ellipsis': C(Ellipsis)}


def resolve(path):
    path = canon(path)
    v = CVALS.get(path)
    return v if v is not None else X(path)


# ------------------------------------------------------------- basic helpers
def one(v, s):
    return [(v, s)]


def kind_of(v):
    if isinstance(v, C):
        if isinstance(v.v, (bool, int, float, complex)):
            return type(v.v).__name__
        return None
    if isinstance(v, N):
        return v.kind if v.kind != 'str' else None
    if isinstance(v, A):
        return v.dtype
    return None


def jk(a, b):
    if a == b:
        return a
    if a in ORDER and b in ORDER:
        return ORDER[max(ORDER.index(a), ORDER.index(b))]
    if 'object' in (a, b):
        return 'object'
    if 'complex' in (a, b):
        return 'complex'
    return 'num'


def vread(t, view, s=None):
    for v in view:
        if v[0] == 'idx':
            t = tm.getitem(t, v[1]) if tm.conc(t.shape) else tm.uf('getitem', (t, repr(v[1])), None)
        elif v[0] == 'sidx':
            t = tm.uf('getitem', (t,) + tuple(v[1]), v[2])
        elif v[0] == 'T':
            t = tm.transpose(t, v[1]) if t.shape is not None else tm.uf('T', (t,), None)
        elif v[0] == 'reshape':
            t = tm.reshape(t, v[1]) if v[1] is not None else tm.uf('reshape', (t,), None)
        elif v[0] in ('real', 'imag'):
            t = eltwise1(v[0], t)
        elif v[0] == 'unk':
            t = tm.uf('unkview', (t,), v[1])
    return t


def vwrite(t, view, new):
    """term of the buffer after the viewed part became `new`"""
    if not view:
        return new if new.shape == t.shape else tm.reshape(new, t.shape) if tm.conc(t.shape) and tm.conc(new.shape) \
            and tm.nelem(new.shape) == tm.nelem(t.shape) else tm.uf('write', (t, new), t.shape)
    v, rest = view[0], view[1:]
    sub = vread(t, (v,))
    part = vwrite(sub, rest, new)
    if v[0] == 'idx' and tm.conc(t.shape):
        return tm.setitem(t, v[1], part)
    if v[0] == 'T' and t.shape is not None:
        ax = v[1] if v[1] is not None else tuple(reversed(range(len(t.shape))))
        inv = tuple(sorted(range(len(ax)), key=lambda i: ax[i]))
        return tm.transpose(part, inv)
    if v[0] == 'reshape' and t.shape is not None:
        return tm.reshape(part, t.shape)
    return tm.uf('write', (t, part, repr(v)), t.shape)


def aterm(a, s):
    return vread(s.get(a.buf).term, a.view)


def awrite(I, a, new, s, n, dtype=None):
    h = s.mut(a.buf)
    if dtype is not None:
        if h.dtype in ('int', 'bool') and dtype in ('float', 'complex', 'num', 'unk'):
            new = trunc(new)
        elif h.dtype == 'float' and dtype == 'complex':
            new = eltwise1('real', new)
    h.term = vwrite(h.term, a.view, new)
    s.writes.setdefault(a.buf, I.where(n))


def trunc(t):
    """value stored into an integer array"""
    if t.shape == ():
        if t.op == 'const' and isinstance(t.args[0], int):
            return t
        if t.op == 'const':
            try:
                return tm.const(int(t.args[0]))
            except Exception:
                pass
        return tm.uf('trunc', (t,), ())
    if t.op == 'lit':
        return tm.lit([trunc(x) for x in t.args], t.shape)
    return tm.uf('trunc', (t,), t.shape)


def from_term(t, dtype, s, shape='term'):
    sh = t.shape if shape == 'term' else shape
    if sh == ():
        if dtype == 'axes':
            return XO('axes', t)
        return N(dtype if dtype not in ('unk',) else 'num', t, True)
    return s.new_arr(t, dtype, sh)


def num(v, s):
    """(term, shape, dtype) of a numeric value, else None"""
    if isinstance(v, C):
        if isinstance(v.v, (bool, int, float, complex)):
            return tm.const(v.v), (), type(v.v).__name__
        return None
    if isinstance(v, N):
        return (v.term, (), v.kind) if v.kind != 'str' else None
    if isinstance(v, A):
        return aterm(v, s), v.shape, v.dtype
    return None


def seqitems(v, s):
    """items of a list/tuple value with known length, else None"""
    if isinstance(v, Tu):
        return list(v.items)
    if isinstance(v, R):
        h = s.heap.get(v.id)
        if isinstance(h, HList) and h.items is not None:
            return list(h.items)
    return None


class NotNum(Exception):
    def __init__(self, exc, msg):
        self.exc, self.msg = exc, msg


class Unknown(Exception):
    pass


def arrayify(I, v, s, dtype=None):
    """numpy.asarray on an abstract value -> (term, shape, dtype, isfresh)"""
    if isinstance(v, A):
        return aterm(v, s), v.shape, v.dtype
    r = num(v, s)
    if r is not None:
        return r
    if isinstance(v, C):
        if v.v is None:
            if dtype in ('float', 'complex'):
                return tm.const(float('nan')), (), dtype
            return tm.leaf('None'), (), 'object'
        if isinstance(v.v, str):
            if dtype in ('float', 'complex', 'int'):
                raise NotNum('ValueError', 'could not convert string to float')
            return tm.leaf('str'), (), 'str'
        return tm.leaf('obj'), (), 'object'
    items = seqitems(v, s)
    if items is not None:
        parts = []
        for x in items:
            if isinstance(x, UV):
                raise Unknown()
            parts.append(arrayify(I, x, s, dtype))
        if not parts:
            return tm.lit((), (0,)), (0,), 'float'
        shs = [p[1] for p in parts]
        dt = parts[0][2]
        for p in parts[1:]:
            dt = jk(dt, p[2]) if dt != 'str' and p[2] != 'str' else 'str'
        if any(x is None for x in shs):
            return tm.mk('leaf', ('arr#%d' % new_id(), ()), None), None, dt
        if any(len(x) != len(shs[0]) for x in shs):
            raise NotNum('ValueError', 'setting an array element with a sequence. The requested array has an inhomogeneous shape')
        sh0 = shs[0]
        for x in shs[1:]:
            for a, b in zip(sh0, x):
                if isinstance(a, int) and isinstance(b, int) and a != b:
                    raise NotNum('ValueError', 'setting an array element with a sequence. The requested array has an inhomogeneous shape')
        sh = (len(parts),) + tuple(sh0)
        if tm.conc(sh0):
            if sh0 == ():
                return tm.lit([p[0] for p in parts], sh), sh, dt
            ent = []
            for p in parts:
                ent += list(tm.entries(p[0]))
            if len(ent) > 3000:
                return tm.uf('stack', [p[0] for p in parts], sh), sh, dt
            return tm.lit(ent, sh), sh, dt
        return tm.uf('stack', [p[0] for p in parts], sh), sh, dt
    if isinstance(v, R):
        h = s.heap.get(v.id)
        if isinstance(h, HList):
            el = h.elem
            if isinstance(el, UV) or el is None:
                raise Unknown()
            t, sh, dt = arrayify(I, el, s, dtype)
            if sh is None:
                raise Unknown()
            sh = (tm.dim_of(h.length),) + tuple(sh)
            return tm.uf('unklist', (h.length, t), sh), sh, dt
        if isinstance(h, HInst):
            if dtype in ('float', 'complex', 'int'):
                raise NotNum('TypeError', "float() argument must be a string or a real number, not %r" % h.cls.name)
            return tm.leaf('inst%d' % v.id), (), 'object'
        if isinstance(h, (HDict, HSet)):
            if dtype in ('float', 'complex', 'int'):
                raise NotNum('TypeError', 'float() argument must be a string or a real number')
            return tm.leaf('obj%d' % v.id), (), 'object'
    if isinstance(v, N):
        if dtype in ('float', 'complex', 'int'):
            raise NotNum('ValueError', 'could not convert string to float')
        return v.term, (), 'str'
    if isinstance(v, XO) and v.tag == 'axes':
        return v.term, (), 'axes'
    if isinstance(v, (K, Fn, BM, X, BX)):
        if dtype in ('float', 'complex', 'int'):
            raise NotNum('TypeError', 'float() argument must be a string or a real number')
        return tm.leaf('callable'), (), 'object'
    raise Unknown()


def need_arr(f):
    """wrap a numpy model: unknown operands give an unknown result"""
    def g(I, args, kw, s, n):
        try:
            return f(I, args, kw, s, n)
        except Unknown:
            return one(Top(), s)
        except NotNum as e:
            return one(I.err(e.exc, e.msg, n), s)
        except ShapeError as e:
            return one(I.err('ValueError', str(e), n), s)
        except IndexError as e:
            if str(e).startswith(('list index', 'tuple index', 'string index')):
                raise                       # a fault of the model itself
            return one(I.err('IndexError', str(e), n), s)
    g.__name__ = f.__name__
    return g


def np_(*paths):
    def d(f):
        g = need_arr(f)
        for p in paths:
            REG[p] = g
        return f
    return d


def arg(args, kw, i, name, default=None):
    if i is not None and len(args) > i:
        return args[i]
    return kw.get(name, default)


def cint(v):
    return v.v if isinstance(v, C) and isinstance(v.v, int) else None


def dimval(d):
    return C(d) if isinstance(d, int) else N('int', d)


def todim(v):
    if isinstance(v, C) and isinstance(v.v, (int,)):
        return int(v.v)
    if isinstance(v, N) and v.kind in ('int', 'num', 'bool'):
        return tm.dim_of(v.term)
    if isinstance(v, C) and isinstance(v.v, float):
        raise NotNum('TypeError', "'float' object cannot be interpreted as an integer")
    if isinstance(v, N) and v.kind in ('float', 'complex'):
        raise NotNum('TypeError', "'float' object cannot be interpreted as an integer")
    raise Unknown()


def toshape(v, s):
    items = seqitems(v, s)
    if items is not None:
        return tuple(todim(x) for x in items)
    if isinstance(v, A):
        if v.shape is not None and tm.conc(v.shape) and len(v.shape) == 1:
            return tuple(tm.dim_of(x) for x in tm.entries(aterm(v, s)))
        raise Unknown()
    return (todim(v),)


def truthy(v):
    return bool(v.v) if isinstance(v, C) else None


DT = {'float': 'float', 'int': 'int', 'bool': 'bool', 'complex': 'complex', 'd': 'float', 'f': 'float', 'object': 'object',
      'D': 'complex', 'i': 'int', 'float64': 'float', 'complex128': 'complex', 'int64': 'int', 'float32': 'float',
      'int32': 'int', 'complex_': 'complex', 'float_': 'float', 'bool_': 'bool', 'intp': 'int', 'int_': 'int', 'O': 'object',
      'complex64': 'complex', 'double': 'float', 'cdouble': 'complex', 'c16': 'complex', 'f8': 'float', 'str': 'str',
      'F': 'complex', 'int8': 'int', 'uint8': 'int', 'int16': 'int', 'longdouble': 'float', 'floating': 'float', 'l': 'int'}


def dtype_of(v):
    if v is None or (isinstance(v, C) and v.v is None):
        return None
    if isinstance(v, X):
        return DT.get(v.path.split('.')[-1], 'unk')
    if isinstance(v, C) and isinstance(v.v, str):
        return DT.get(v.v, 'unk')
    if isinstance(v, XO) and v.tag.startswith('dtype:'):
        return v.tag[6:]
    return 'unk'


# ------------------------------------------------------------- type queries
def type_name(I, v, s):
    if isinstance(v, C):
        return type(v.v).__name__
    if isinstance(v, N):
        return v.kind
    if isinstance(v, A):
        return 'ndarray'
    if isinstance(v, Tu):
        return 'tuple'
    if isinstance(v, R):
        h = s.heap.get(v.id)
        return {'HList': 'list', 'HDict': 'dict', 'HSet': 'set'}.get(type(h).__name__, getattr(getattr(h, 'cls', None), 'name', 'object'))
    if isinstance(v, (Fn, BM)):
        return 'function'
    if isinstance(v, K):
        return 'type'
    return type(v).__name__


PYNUM = {'int': ('int', 'bool'), 'float': ('float',), 'complex': ('complex',), 'bool': ('bool',)}


def isinst(I, v, t, s):
    """isinstance -> True/False/None"""
    if isinstance(t, Tu):
        rs = [isinst(I, v, x, s) for x in t.items]
        if any(r is True for r in rs):
            return True
        if any(r is None for r in rs):
            return None
        return False
    if isinstance(v, (Top,)) or isinstance(t, (Top, UV)):
        return None
    h = I.inst(v, s)
    if isinstance(t, K):
        if h is not None:
            return t.cls in h.cls.mro()
        return None if isinstance(v, UV) else False
    if not isinstance(t, X):
        return None
    p = t.path
    b = p.split('.')[-1]
    if h is not None:
        if p == 'builtins.object':
            return True
        if p in ('collections.abc.Iterable', 'typing.Iterable'):
            return h.cls.find('__iter__') is not None
        if p.startswith('collections.abc.'):
            return {'Callable': h.cls.find('__call__') is not None, 'Sized': h.cls.find('__len__') is not None}.get(b, False)
        return p in h.cls.ext_bases()
    if p == 'builtins.object':
        return True
    if p.startswith('builtins.'):
        if b in PYNUM:
            if isinstance(v, C):
                return isinstance(v.v, getattr(_bi, b))
            if isinstance(v, N):
                if v.kind == 'num':
                    return None
                if v.isnp and b in ('int', 'bool'):
                    return False
                return v.kind in PYNUM[b]
            return False
        if b == 'str':
            return (isinstance(v, C) and isinstance(v.v, str)) or (isinstance(v, N) and v.kind == 'str')
        if b == 'tuple':
            return isinstance(v, Tu)
        if b in ('list', 'dict', 'set'):
            return isinstance(v, R) and type(s.heap.get(v.id)).__name__ == {'list': 'HList', 'dict': 'HDict', 'set': 'HSet'}[b]
        if b == 'slice':
            return isinstance(v, SL)
        if b == 'type':
            return isinstance(v, (K,)) or (isinstance(v, X) and v.path.startswith('builtins.') and isinstance(getattr(_bi, v.path.split('.')[-1], None), type))
        if isinstance(v, XO) and v.tag.startswith('exc:'):
            from .interp import exc_isa
            return exc_isa(v.tag[4:], b)
        if isinstance(v, C):
            c = getattr(_bi, b, None)
            return isinstance(v.v, c) if isinstance(c, type) else None
        return False
    if p == 'numpy.ndarray':
        return isinstance(v, A)
    if p.startswith('numpy.'):
        if isinstance(v, N) and v.isnp:
            if v.kind == 'num':
                return None
            return {'generic': True, 'number': v.kind != 'bool', 'integer': v.kind == 'int', 'signedinteger': v.kind == 'int',
                    'floating': v.kind == 'float', 'complexfloating': v.kind == 'complex', 'inexact': v.kind in ('float', 'complex'),
                    'bool_': v.kind == 'bool', 'float64': v.kind == 'float', 'int64': v.kind == 'int', 'complex128': v.kind == 'complex',
                    'float_': v.kind == 'float', 'int_': v.kind == 'int', 'complex_': v.kind == 'complex', 'intp': v.kind == 'int'}.get(b, False)
        return False
    if p.startswith('numbers.'):
        k = kind_of(v)
        if isinstance(v, A) or k is None:
            return False
        if k == 'num':
            return None
        return {'Number': True, 'Complex': True, 'Real': k != 'complex', 'Rational': k in ('int', 'bool'), 'Integral': k in ('int', 'bool')}.get(b)
    if p.startswith('collections.abc.') or p.startswith('typing.'):
        it = isinstance(v, (A, Tu)) or (isinstance(v, R)) or (isinstance(v, C) and isinstance(v.v, (str, bytes))) or \
            (isinstance(v, N) and v.kind == 'str') or (isinstance(v, XO) and v.tag in ('generator', 'iter', 'cycler'))
        if b == 'Iterable':
            return it
        if b == 'Callable':
            return isinstance(v, (Fn, BM, K, X, BX, Partial))
        if b in ('Sequence', 'MutableSequence'):
            return (it and not isinstance(v, A) and not (isinstance(v, R) and not isinstance(s.heap.get(v.id), HList)))
        if b in ('Mapping', 'MutableMapping'):
            return isinstance(v, R) and isinstance(s.heap.get(v.id), HDict)
        if b in ('Sized', 'Collection', 'Container'):
            return it
        return None
    if isinstance(v, XO):
        return None
    return False


# -------------------------------------------------------------- conditions
def cnot(c):
    if isinstance(c, bool):
        return not c
    if c.op == 'not':
        return c.args[0]
    return tm.mk('not', (c,), ())


def _fin(t):
    return t.op == 'leaf' and not str(t.args[0]).startswith(('nan',)) or t.op in ('lin',)


def cmp_scalar(op, a, b):
    """bool or condition term"""
    if op == 'ne':
        return cnot(cmp_scalar('eq', a, b))
    if op == 'gt':
        return cmp_scalar('lt', b, a)
    if op == 'le':
        return cnot(cmp_scalar('lt', b, a))
    if op == 'ge':
        return cnot(cmp_scalar('lt', a, b))
    if a.op == 'const' and b.op == 'const':
        try:
            return (a.args[0] == b.args[0]) if op == 'eq' else (a.args[0] < b.args[0])
        except TypeError:
            return tm.uf(op, (a, b), ())
    if a.op == 'const' and b.op == 'uf' and b.args[0] == 'count' and len(b.args) == 3 and not isinstance(a.args[0], bool):
        v = a.args[0]
        if op == 'eq' and v == 0:
            return cnot(any_cond(b.args[1], b.args[2]))
        if op == 'lt' and v == 0:
            return any_cond(b.args[1], b.args[2])
        cs = entry_conds(b.args[1], b.args[2])
        if op == 'eq' and cs is not None and v == len(cs):
            return conj(cs)
    if b.op == 'const' and a.op == 'uf' and a.args[0] == 'count' and len(a.args) == 3:
        v = b.args[0]
        if op == 'eq':
            return cmp_scalar(op, b, a)
        if op == 'lt' and v == 1:
            return cnot(any_cond(a.args[1], a.args[2]))
    ca, cb = tm.constval(a), tm.constval(b)
    if ca is not None and cb is not None:
        try:
            return (ca == cb) if op == 'eq' else (ca < cb)
        except TypeError:
            pass
    if a is b:
        if a.op == 'leaf' and a.args[0] == 'nan':
            return False
        return op == 'eq'
    for x, y, sw in ((a, b, False), (b, a, True)):
        if y.op == 'const' and isinstance(y.args[0], float) and math.isinf(y.args[0]) and _fin(x):
            if op == 'eq':
                return False
            return (y.args[0] > 0) != sw
    sg = None
    if b.op == 'const' and b.args[0] == 0:
        sg = tm.sign(a)
    elif a.op == 'const' and a.args[0] == 0:
        sg = {'+': '-', '-': '+', '>=0': '<=0'}.get(tm.sign(b), tm.sign(b))
    if sg is None:
        la, lb = a.op in ('lin', 'const') or a in tm.BOUNDS, b.op in ('lin', 'const') or b in tm.BOUNDS
        if la and lb and not (a.op == 'const' and not isinstance(a.args[0], int)) and not (b.op == 'const' and not isinstance(b.args[0], int)):
            d = tm.iadd(a, b, -1)
            lo, hi = tm.ibounds(d)
            if lo is not None and lo > 0:
                sg = '+'
            elif hi is not None and hi < 0:
                sg = '-'
            elif lo == 0 and hi == 0:
                sg = '0'
            elif lo is not None and lo >= 0:
                sg = '>=0'
            elif hi is not None and hi <= 0:
                sg = '<=0'
    if sg is not None:
        if op == 'eq':
            if sg in ('+', '-', '!=0'):
                return False
            if sg == '0':
                return True
        else:
            if sg == '-':
                return True
            if sg in ('+', '0', '>=0'):
                return False
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    return tm.uf(op, (a, b), ())


def cbool(c):
    """condition -> value"""
    if isinstance(c, bool):
        return C(c)
    return N('bool', c)


def as_cond(v):
    """condition for the truth of an N value"""
    t = v.term
    if v.kind == 'bool':
        if t.op == 'const':
            return bool(t.args[0])
        if is_cond(t):
            return t
        return t
    if v.kind == 'str':
        return tm.uf('truth', (t,), ())
    return cmp_scalar('ne', t, tm.ZERO)


def is_cond(t):
    return t.op == 'not' or (t.op == 'uf' and t.args[0] in ('eq', 'lt', 'any', 'all', 'in', 'cond'))


def centry(c):
    """condition -> scalar boolean term"""
    if isinstance(c, bool):
        return tm.ONE if c else tm.ZERO
    return c


def tcond(t):
    """scalar boolean term -> condition"""
    if t.op == 'const':
        return bool(t.args[0])
    return t


def conj(cs):
    cs2 = []
    for c in cs:
        if c is False:
            return False
        if c is True or c in cs2:
            continue
        cs2.append(c)
    if not cs2:
        return True
    if len(cs2) == 1:
        return cs2[0]
    return tm.uf('all', (tm.lit([centry(c) for c in cs2], (len(cs2),)),), ())


def disj(cs):
    cs2 = []
    for c in cs:
        if c is True:
            return True
        if c is False or c in cs2:
            continue
        cs2.append(c)
    if not cs2:
        return False
    if len(cs2) == 1:
        return cs2[0]
    return tm.uf('any', (tm.lit([centry(c) for c in cs2], (len(cs2),)),), ())


def _var_const(t):
    """integer/real term of the form x + k -> (x, k) (also plain x)"""
    if t.op == 'lin' and len(t.args[1]) == 1 and t.args[1][0][1] == 1:
        return t.args[1][0][0], t.args[0]
    if t.op == 'const':
        return None, t.args[0]
    return t, 0


def decide(c, s):
    """use the partition's assumptions to settle another condition"""
    if c.op != 'uf' or not s.assume:
        return None
    k = c.args[0]
    if k in ('eq', 'lt'):
        a, b = c.args[1], c.args[2]
        as_ = s.assume

        def lt(x, y):
            return as_.get(tm.uf('lt', (x, y), ()))

        def eq(x, y):
            return as_.get(tm.uf('eq', (x, y) if x.id <= y.id else (y, x), ()))
        if k == 'eq':
            if lt(a, b) or lt(b, a):
                return False
            if lt(a, b) is False and lt(b, a) is False:
                return True
        else:
            if eq(a, b) is True or lt(b, a) is True:
                return False
            if lt(b, a) is False and eq(a, b) is False:
                return True
        # constants bounds on a shared variable
        xa, ka = _var_const(a)
        xb, kb = _var_const(b)
        if (xa is None) != (xb is None):
            x = xa if xa is not None else xb
            bound = (kb - ka) if xa is not None else (ka - kb)
            isint = x in tm.BOUNDS
            lo, hi = tm.BOUNDS.get(x, (None, None))
            lo_s = hi_s = False   # strict
            val = None
            nes = set()
            for q, tv in as_.items():
                if q.op != 'uf' or q.args[0] not in ('eq', 'lt'):
                    continue
                u, ku = _var_const(q.args[1])
                w, kw = _var_const(q.args[2])
                if u is x and w is None:
                    m = kw - ku
                    if q.args[0] == 'eq':
                        if tv:
                            val = m
                        else:
                            nes.add(m)
                    elif tv:
                        if hi is None or m <= hi:
                            hi, hi_s = m, True
                    else:
                        if lo is None or m > lo:
                            lo, lo_s = m, False
                elif w is x and u is None:
                    m = ku - kw
                    if q.args[0] == 'eq':
                        if tv:
                            val = m
                        else:
                            nes.add(m)
                    elif tv:
                        if lo is None or m >= lo:
                            lo, lo_s = m, True
                    else:
                        if hi is None or m < hi:
                            hi, hi_s = m, False
            try:
                if isint:
                    if lo is not None and lo_s:
                        lo, lo_s = lo + 1, False
                    if hi is not None and hi_s:
                        hi, hi_s = hi - 1, False
                    while lo is not None and lo in nes:
                        lo += 1
                    while hi is not None and hi in nes:
                        hi -= 1
                    if lo is not None and lo == hi:
                        val = lo
                if val is not None:
                    if k == 'eq':
                        return val == bound
                    return (val < bound) if xa is not None else (bound < val)
                if k == 'eq':
                    if lo is not None and (bound < lo or (lo_s and bound == lo)):
                        return False
                    if hi is not None and (bound > hi or (hi_s and bound == hi)):
                        return False
                elif xa is not None:      # x < bound
                    if hi is not None and (hi < bound or (hi_s and hi == bound)):
                        return True
                    if lo is not None and lo >= bound:
                        return False
                else:                     # bound < x
                    if lo is not None and (lo > bound or (lo_s and lo == bound)):
                        return True
                    if hi is not None and hi <= bound:
                        return False
            except TypeError:
                return None
        return None
    if k in ('any', 'all') and c.args[1].op == 'lit':
        vals = []
        for e in c.args[1].args:
            x = tcond(e)
            pol = True
            while not isinstance(x, bool) and x.op == 'not':
                x, pol = x.args[0], not pol
            if not isinstance(x, bool):
                y = s.assume.get(x)
                if y is None:
                    y = decide(x, s) if x.op == 'uf' else None
                x = y
            if x is not None:
                x = x == pol
            vals.append(x)
        if k == 'any':
            if any(v is True for v in vals):
                return True
            if all(v is False for v in vals):
                return False
        else:
            if any(v is False for v in vals):
                return False
            if all(v is True for v in vals):
                return True
    return None


_same_cache = {}


def ident(a, b):
    """are two value terms identically equal: True / False / None"""
    k = (a, b)
    if k not in _same_cache:
        r = None
        if a.size + b.size <= 3000 or sum(1 for _ in itertools.islice(tm.walk(a), 6000)) < 6000:
            try:
                r = tm.same(a, b)
            except Exception:
                r = None
        _same_cache[k] = r
    return _same_cache[k]


def intish(t):
    return t.op == 'lin' or t in tm.BOUNDS


BOOLUF = {'eq', 'ne', 'lt', 'le', 'any', 'all', 'in', 'cond', 'land', 'lor', 'lxor', 'aisnan', 'aisinf', 'aisfinite', 'isclose', 'iscomplex',
          'isreal', 'isin', 'aany', 'aall', 'bnot', 'not', 'alt', 'ale', 'agt', 'age', 'aeq', 'ane', 'lnot', 'invert', 'truth'}


def generic_truth(c):
    """truth of a condition for data in general position (None: no such notion)"""
    if isinstance(c, bool):
        return c
    if c.op == 'not':
        r = generic_truth(c.args[0])
        return None if r is None else not r
    if c.op == 'const':
        return bool(c.args[0])
    if c.op != 'uf':
        return None
    k = c.args[0]
    if k == 'eq':
        a, b = c.args[1], c.args[2]
        if intish(a) or intish(b):
            return None
        return ident(a, b)
    if k in ('any', 'all'):
        t = c.args[1]
        if t.op == 'lit':
            vs = [generic_truth(e) if e.op in ('not', 'uf', 'const') else None for e in t.args]
            if k == 'any':
                return True if True in vs else False if all(v is False for v in vs) else None
            return False if False in vs else True if all(v is True for v in vs) else None
        if t.op in ('not', 'phi') or t.op == 'uf' and t.args[0] in BOOLUF or t.shape is None:
            return None
        if k == 'any':
            r = ident(t, tm.zeros(t.shape)) if tm.conc(t.shape) else None
            return None if r is None else not r
        return None
    if k == 'cond':
        w = c.args[1]
        if w in ('close', 'aeq'):
            a, b = c.args[2], c.args[3]
            if a.shape is None or b.shape is None or not tm.conc(a.shape) or not tm.conc(b.shape):
                return None
            return ident(a, b) if a.shape == b.shape else ident(tm.arith('sub', a, b), tm.zeros(tm.bshape(a.shape, b.shape)))
        if w in ('isnan', 'isinf'):
            return False
        if w == 'isfinite':
            return True
        return None
    if k == 'lt':
        a, b = c.args[1], c.args[2]
        small = tm.constval(b)
        if a.op == 'uf' and a.args[0] == 'abs' and ((small is not None and not isinstance(small, complex) and 0 < small < 1e-3) or
                                                    any(y.op == 'uf' and y.args[0] == 'spacing' for y in tm.walk(b))):
            return ident(a.args[1], tm.zeros(a.args[1].shape)) if a.args[1].shape is not None and tm.conc(a.args[1].shape) else None
        small = tm.constval(a)
        if b.op == 'uf' and b.args[0] == 'abs' and ((small is not None and not isinstance(small, complex) and 0 <= small < 1e-3) or
                                                    any(y.op == 'uf' and y.args[0] == 'spacing' for y in tm.walk(a))):
            r = ident(b.args[1], tm.zeros(b.args[1].shape)) if b.args[1].shape is not None and tm.conc(b.args[1].shape) else None
            return None if r is None else not r
    return None


def entry_conds(t, dtype):
    """per-entry truth conditions of an array term (None if too big)"""
    if not tm.conc(t.shape) or tm.nelem(t.shape) > 200:
        return None
    if t.op not in ('lit', 'full') and t.shape != ():
        return None
    out = []
    for e in tm.entries(t):
        if dtype == 'bool':
            out.append(tcond(e))
        else:
            out.append(cmp_scalar('ne', e, tm.ZERO))
    return out


def any_cond(t, dtype):
    if tm.conc(t.shape) and tm.nelem(t.shape) == 0:
        return False
    if t.op == 'leaf' and 'nonzero' in (t.args[1] or ()):
        return True
    if tm.is_zero(t):
        return False
    if t.op == 'neg' and dtype != 'bool':
        return any_cond(t.args[0], dtype)
    if t.op in ('T', 'reshape'):
        return any_cond(t.args[0], dtype)
    cs = entry_conds(t, dtype)
    if cs is not None:
        return disj(cs)
    if t.op == 'uf' and t.args[0] == 'abs':
        return any_cond(t.args[1], dtype)
    return tm.uf('any', (t,), ())


def all_cond(t, dtype):
    if tm.conc(t.shape) and tm.nelem(t.shape) == 0:
        return True
    cs = entry_conds(t, dtype)
    if cs is not None:
        return conj(cs)
    return tm.uf('all', (t,), ())


def arr_truth(I, v, s, node):
    if v.shape is None:
        return I.vague_fork(s)
    if tm.conc(v.shape):
        k = tm.nelem(v.shape)
        if k == 0:
            return [(False, s)]
        if k > 1:
            return [(I.err('ValueError', 'The truth value of an array with more than one element is ambiguous', node), s)]
        e = tm.entries(aterm(v, s))[0]
        return I.branch(as_cond(N(v.dtype if v.dtype in ORDER else 'num', e)), s)
    return I.vague_fork(s)


# ------------------------------------------------------------ unary/binary
def eltwise1(name, t):
    """elementwise function with the algebra we rely on"""
    if name in ('rad2deg', 'deg2rad'):
        a, b = (tm.const(180), PI.term) if name == 'rad2deg' else (PI.term, tm.const(180))
        return tm.arith('div', tm.arith('mul', t, a), b)
    if t.op == 'lit' and tm.nelem(t.shape) <= 200:
        return tm.lit([eltwise1(name, x) for x in t.args], t.shape)
    if t.op == 'full':
        return tm.full(eltwise1(name, t.args[0]), t.shape)
    if t.shape == () and t.op == 'const':
        v = t.args[0]
        try:
            if name == 'abs':
                return tm.const(abs(v))
            if name == 'real':
                return tm.const(v.real)
            if name == 'imag':
                return tm.const(v.imag)
            if name == 'conj':
                return tm.const(v.conjugate())
            if name == 'sqrt' and not isinstance(v, complex) and v >= 0:
                r = math.sqrt(v)
                if r == int(r):
                    return tm.const(int(r))
            if name in ('exp', 'cos') and v == 0:
                return tm.ONE
            if name in ('sin', 'tan', 'arctan') and v == 0:
                return tm.ZERO
            if name == 'log' and v == 1:
                return tm.ZERO
            if name in ('ceil', 'floor'):
                return tm.const(getattr(math, name)(v))
            if name == 'log10' and v == 1:
                return tm.ZERO
        except Exception:
            pass
    if name == 'abs':
        sg = tm.sign(t) if t.shape == () else None
        if sg == '+':
            return t
        if t.op == 'neg':
            return eltwise1('abs', t.args[0])
    return tm.uf(name, (t,), t.shape)


def unary(I, op, v, s, n):
    if isinstance(v, Top):
        return one(Top(), s)
    if isinstance(v, C):
        try:
            return one(C({'neg': lambda x: -x, 'pos': lambda x: +x, 'invert': lambda x: ~x}[op](v.v)), s)
        except Exception:
            return one(I.err('TypeError', 'bad operand type for unary %s' % op, n), s)
    r = num(v, s)
    if r is None:
        return one(I.err('TypeError', 'bad operand type for unary %s: %s' % (op, type_name(I, v, s)), n), s)
    t, sh, k = r
    if op == 'pos':
        return one(from_term(t, k, s, sh) if isinstance(v, A) else v, s)
    if op == 'neg':
        if isinstance(v, A):
            return one(s.new_arr(tm.neg(t), k, sh), s)
        if v.kind in ('int', 'bool'):
            return one(N('int', tm.iadd(tm.ZERO, t, -1), v.isnp), s)
        return one(N(v.kind, tm.neg(t), v.isnp), s)
    if k == 'bool':
        if isinstance(v, A):
            return one(s.new_arr(bnot(t), 'bool', sh), s)
        return one(cbool(cnot(as_cond(v))), s)
    if k in ('float', 'complex'):
        return one(I.err('TypeError', "ufunc 'invert' not supported for the input types", n), s)
    return one(from_term(tm.uf('invert', (t,), t.shape), k, s, sh), s)


def bnot(t):
    if t.op == 'lit':
        return tm.lit([centry(cnot(tcond(x))) for x in t.args], t.shape)
    return tm.uf('lnot', (t,), t.shape)


def rkind(op, a, b, l=None, r=None):
    k = jk(a, b)
    if op == 'div':
        return k if k in ('complex', 'num', 'object', 'unk', 'float') else 'float'
    if op == 'pow' and k in ('int', 'bool'):
        if isinstance(r, C) and isinstance(r.v, int) and r.v >= 0:
            return 'int'
        if isinstance(l, A) or isinstance(r, A):
            return 'int'
        return 'num'
    if k == 'bool' and op in ('add', 'sub', 'mul', 'floordiv', 'mod', 'pow') and not (isinstance(l, A) or isinstance(r, A)):
        return 'int'
    return k


def barith(op, ta, tb, ka, kb, sh):
    if op in ('add', 'sub', 'mul', 'div', 'pow'):
        if ta.shape is None or tb.shape is None or sh is None:
            return tm.mk(op, (ta, tb), sh)
        isint = ka in ('int', 'bool') and kb in ('int', 'bool')
        return tm.arith(op, ta, tb, isint)
    if ta.shape == () and tb.shape == () and ta.op == 'const' and tb.op == 'const':
        return tm.arith(op, ta, tb)
    if op in ('floordiv', 'mod') and ta.shape == () and tb.shape == ():
        return tm.mk(op, (ta, tb), ())
    return tm.uf(op, (ta, tb), sh)


def numop(I, op, l, r, s, n):
    (ta, sa, ka), (tb, sb, kb) = num(l, s), num(r, s)
    arr = isinstance(l, A) or isinstance(r, A)
    if 'object' in (ka, kb):
        return one(s.new_arr(tm.mk('leaf', ('obj#%d' % new_id(), ()), sa if isinstance(l, A) else sb), 'object'), s)
    if op == 'matmul':
        if not arr or sa == () or sb == ():
            if not arr:
                return one(I.err('TypeError', 'unsupported operand type(s) for @', n), s)
            return one(I.err('ValueError', 'matmul: input operand does not have enough dimensions', n), s)
        try:
            sh = tm.matmul_shape(sa, sb)
        except ShapeError as e:
            return one(I.err('ValueError', str(e), n), s)
        t = tm.matmul(ta, tb) if sh is not None else tm.mk('matmul', (ta, tb), None)
        k = jk(ka, kb)
        return one(from_term(t, k, s, sh), s)
    if not arr:
        k = rkind(op, ka, kb, l, r)
        isnp = (isinstance(l, N) and l.isnp) or (isinstance(r, N) and r.isnp)
        if op in ('and', 'or', 'xor'):
            if ka == 'bool' and kb == 'bool':
                ca, cb = as_cond(N('bool', ta)), as_cond(N('bool', tb))
                if op == 'and':
                    return one(cbool(conj([ca, cb])), s)
                if op == 'or':
                    return one(cbool(disj([ca, cb])), s)
                return one(N('bool', tm.uf('cond', ('xor', centry(ca), centry(cb)), ())), s)
            return one(N('int', tm.uf(op, (ta, tb), ()), isnp), s)
        if op in ('div', 'floordiv', 'mod') and tb.op == 'const' and tb.args[0] == 0 and not isnp:
            return one(I.err('ZeroDivisionError', 'division by zero', n), s)
        extra = []
        if op in ('div', 'floordiv', 'mod') and not isnp and tm.sign(tb) not in ('+', '-', '!=0'):
            extra = I.mayraise('ZeroDivisionError', 'division by zero', n, s)
        t = barith(op, ta, tb, ka, kb, ())
        return [(N(k, t, isnp), s)] + extra
    try:
        sh = tm.bshape(sa, sb)
    except ShapeError as e:
        return one(I.err('ValueError', str(e), n), s)
    k = rkind(op, ka, kb, l, r)
    if op in ('and', 'or', 'xor'):
        if ka == 'bool' and kb == 'bool' and tm.conc(sh) and tm.nelem(sh) <= 64 and tm.entrywise(ta) and tm.entrywise(tb):
            f = {'and': conj, 'or': disj}.get(op)
            if f:
                es = [centry(f([tcond(x), tcond(y)])) for x, y in zip(tm.bentries(ta, sh), tm.bentries(tb, sh))]
                return one(from_term(tm.lit(es, sh), 'bool', s), s)
        return one(from_term(tm.uf(op, (ta, tb), sh), k, s, sh), s)
    t = barith(op, ta, tb, ka, kb, sh)
    return one(from_term(t, k, s, sh), s)


def binop(I, op, l, r, s, n):
    if isinstance(l, Top) or isinstance(r, Top):
        return one(Top(), s)
    if isinstance(l, C) and isinstance(r, C):
        f = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'div': lambda a, b: a / b,
             'pow': lambda a, b: a ** b, 'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b, 'and': lambda a, b: a & b,
             'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'lshift': lambda a, b: a << b, 'rshift': lambda a, b: a >> b,
             'matmul': lambda a, b: a @ b}[op]
        try:
            return one(C(f(l.v, r.v)), s)
        except Exception as e:
            return one(I.err(type(e).__name__, str(e), n), s)
    nl, nr = num(l, s) is not None, num(r, s) is not None
    if nl and nr:
        return numop(I, op, l, r, s, n)
    # array with list-like operand
    if (isinstance(l, A) and seqitems(r, s) is not None) or (isinstance(r, A) and seqitems(l, s) is not None):
        try:
            if not isinstance(l, A):
                t, sh, k = arrayify(I, l, s)
                l = s.new_arr(t, k, sh)
            else:
                t, sh, k = arrayify(I, r, s)
                r = s.new_arr(t, k, sh)
            return numop(I, op, l, r, s, n)
        except Unknown:
            return one(Top(), s)
        except NotNum as e:
            return one(I.err(e.exc, e.msg, n), s)
    isstr = lambda v: (isinstance(v, C) and isinstance(v.v, str)) or (isinstance(v, N) and v.kind == 'str')
    if op == 'mod' and isstr(l):
        return one(N('str', tm.fresh('fmt')), s)
    if isstr(l) and isstr(r) and op == 'add':
        return one(N('str', tm.uf('cat', (_st(l), _st(r)), ())), s)
    if op == 'mul' and (isstr(l) or isstr(r)):
        return one(N('str', tm.fresh('rep')), s)
    li, ri = seqitems(l, s), seqitems(r, s)
    islist = lambda v: isinstance(v, R) and isinstance(s.heap.get(v.id), HList)
    if op == 'add' and ((isinstance(l, Tu) and isinstance(r, Tu)) or (islist(l) and islist(r))):
        if li is not None and ri is not None:
            return one(Tu(li + ri) if isinstance(l, Tu) else s.new_list(li + ri), s)
        hs = [s.heap[v.id] for v in (l, r)]
        els = [I.list_elem(h) for h in hs]
        els = [e for e in els if e is not None]
        ln = tm.ZERO
        for h in hs:
            ln = tm.iadd(ln, tm.const(len(h.items)) if h.items is not None else h.length)
        return one(s.unk_list(union(els) if els else Top(), ln), s)
    if op == 'mul':
        for seqv, items, k in ((l, li, r), (r, ri, l)):
            if items is not None and kind_of(k) in ('int', 'bool'):
                if isinstance(k, C):
                    return one(Tu(items * k.v) if isinstance(seqv, Tu) else s.new_list(items * k.v), s)
                kt = num(k, s)[0]
                if kt.op == 'const' and isinstance(kt.args[0], int) and kt.args[0] < 200:
                    return one(Tu(items * kt.args[0]) if isinstance(seqv, Tu) else s.new_list(items * kt.args[0]), s)
                return one(s.unk_list(union(items) if items else Top(), tm.imul(tm.const(len(items)), num(k, s)[0])), s)
    if isinstance(l, R) and isinstance(s.heap.get(l.id), HSet) and isinstance(r, R) and isinstance(s.heap.get(r.id), HSet):
        a, b = s.heap[l.id], s.heap[r.id]
        if not a.open_ and not b.open_ and all(isinstance(x, C) for x in a.items + b.items):
            if op == 'and':
                its = [x for x in a.items if x in b.items]
            elif op == 'or':
                its = a.items + [x for x in b.items if x not in a.items]
            elif op == 'sub':
                its = [x for x in a.items if x not in b.items]
            else:
                its = [x for x in a.items if x not in b.items] + [x for x in b.items if x not in a.items]
            return one(R(s.alloc(HSet(its))), s)
        return one(R(s.alloc(HSet([], True))), s)
    if isinstance(l, R) and isinstance(s.heap.get(l.id), HDict) and op == 'or':
        a, b = s.heap[l.id], s.heap.get(getattr(r, 'id', None))
        if isinstance(b, HDict):
            return one(R(s.alloc(HDict({**a.items, **b.items}, a.open_ or b.open_))), s)
    if isinstance(l, XO) or isinstance(r, XO):
        return one(Top(), s)
    return one(I.err('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (op, type_name(I, l, s), type_name(I, r, s)), n), s)


def _st(v):
    if isinstance(v, C):
        return tm.leaf('str:' + v.v)
    return v.term


def inplace(I, op, l, r, s, n):
    if isinstance(l, A):
        if isinstance(r, Top):
            awrite(I, l, tm.mk('leaf', ('unk#%d' % new_id(), ()), l.shape), s, n)
            return one(l, s)
        out = []
        for v, t in binop(I, op, l, r, s, n):
            if isinstance(v, Raise):
                out.append((v, t))
                continue
            x = num(v, t)
            if x is None:
                out.append((v, t))
                continue
            tt, sh, k = x
            if l.dtype in ('int', 'bool') and k in ('float', 'complex'):
                out.append((I.err('TypeError', 'Cannot cast ufunc output from %s to %s with casting rule same_kind' % (k, l.dtype), n), t))
                continue
            if l.dtype == 'float' and k == 'complex':
                out.append((I.err('TypeError', 'Cannot cast ufunc output from complex to float', n), t))
                continue
            if sh is not None and l.shape is not None and tm.conc(sh) and tm.conc(l.shape) and sh != l.shape:
                out.append((I.err('ValueError', 'non-broadcastable output operand with shape %s' % (l.shape,), n), t))
                continue
            awrite(I, l, tt, t, n, k)
            out.append((l, t))
        return out
    if isinstance(l, R):
        h = s.heap.get(l.id)
        if isinstance(h, HList) and op == 'add':
            out = []
            for items, t in I.iterate(r, s, n):
                if isinstance(items, Raise):
                    out.append((items, t))
                    continue
                list_extend(I, l, items, t, n)
                out.append((l, t))
            return out
        if isinstance(h, HSet) and op in ('or', 'and', 'sub'):
            res = binop(I, op, l, r, s, n)
            for v, t in res:
                if isinstance(v, R):
                    t.heap[l.id] = t.heap[v.id]
                    I.note_write(l, t, n)
            return [(l if not isinstance(v, Raise) else v, t) for v, t in res]
    return I.binop(op, l, r, s, n)


def list_extend(I, l, items, s, n):
    h = s.mut(l.id)
    I.note_write(l, s, n)
    if h.items is not None and isinstance(items, list):
        h.items.extend(items)
        return
    els = []
    e = I.list_elem(h)
    if e is not None:
        els.append(e)
    ln = tm.const(len(h.items)) if h.items is not None else h.length
    if isinstance(items, list):
        els += items
        ln = tm.iadd(ln, tm.const(len(items)))
    else:
        els.append(items[1] if items else Top())
        ln = tm.iadd(ln, items[2]) if items and len(items) > 2 and items[2] is not None else tm.dimvar('len')
    h.items, h.elem, h.length = None, merge_elems(els), ln


def merge_elems(els):
    e = None
    for x in els:
        if e is None or e == x:
            e = x
        elif isinstance(e, (C, N)) and isinstance(x, (C, N)) and num_kind(e) and num_kind(e) == num_kind(x):
            e = N(num_kind(e), tm.fresh('el'))
        else:
            e = union([e, x])
    return e if e is not None else Top()


# ------------------------------------------------------------- comparison
def eq_vals(I, l, r, s):
    """equality of two non-instance values: bool / condition / None unknown"""
    if isinstance(l, Top) or isinstance(r, Top):
        return None
    if isinstance(l, C) and isinstance(r, C):
        try:
            return bool(l.v == r.v)
        except Exception:
            return None
    a, b = num(l, s), num(r, s)
    if a is not None and b is not None and not isinstance(l, A) and not isinstance(r, A):
        return cmp_scalar('eq', a[0], b[0])
    if isinstance(l, N) and l.kind == 'str' or isinstance(r, N) and r.kind == 'str':
        for x in (l, r):
            if not ((isinstance(x, C) and isinstance(x.v, str)) or (isinstance(x, N) and x.kind == 'str')):
                return False
        ta, tb = _st(l), _st(r)
        if ta is tb:
            return True
        return tm.uf('eq', (ta, tb) if ta.id <= tb.id else (tb, ta), ())
    li, ri = seqitems(l, s), seqitems(r, s)
    if li is not None and ri is not None:
        if isinstance(l, Tu) != isinstance(r, Tu):
            return False
        if len(li) != len(ri):
            return False
        cs = [eq_vals(I, x, y, s) for x, y in zip(li, ri)]
        if any(c is False for c in cs):
            return False
        if any(c is None for c in cs):
            return None
        return conj(cs)
    if l == r:
        return True
    if isinstance(l, (X, K, Fn, Mod)) and isinstance(r, (X, K, Fn, Mod)):
        return False
    if isinstance(l, R) and isinstance(r, R):
        hl, hr = s.heap.get(l.id), s.heap.get(r.id)
        if type(hl) is not type(hr):
            return False
        return None
    if isinstance(l, (XO, UV)) or isinstance(r, (XO, UV)):
        return None
    return False


def compare(I, op, l, r, s, n):
    if op in ('is', 'isnot'):
        v = identity(I, l, r, s)
        if v is None:
            return one(N('bool', tm.fresh('is')) if False else Top(), s)
        if op == 'isnot':
            v = cnot(v)
        return one(cbool(v), s)
    if op in ('in', 'notin'):
        v = contains(I, l, r, s, n)
        if isinstance(v, Raise):
            return one(v, s)
        if v is None:
            return one(Top(), s)
        return one(cbool(cnot(v) if op == 'notin' else v), s)
    if isinstance(l, Top) or isinstance(r, Top):
        return one(Top(), s)
    if isinstance(l, A) or isinstance(r, A):
        try:
            a, b = arrayify(I, l, s), arrayify(I, r, s)
        except Unknown:
            return one(Top(), s)
        except NotNum as e:
            return one(I.err(e.exc, e.msg, n), s)
        if a[2] in ('object', 'str') or b[2] in ('object', 'str'):
            if op in ('eq', 'ne'):
                sh = a[1] if isinstance(l, A) else b[1]
                return one(s.new_arr(tm.full(0 if op == 'eq' else 1, sh), 'bool', sh) if sh not in (None, ()) else Top(), s)
            return one(Top(), s)
        try:
            sh = tm.bshape(a[1], b[1])
        except ShapeError as e:
            return one(I.err('ValueError', str(e), n), s)
        r = settled(acmp(op, a[0], b[0], sh)) if I.general and op in ('eq', 'ne') else None
        return one(from_term(r if r is not None else acmp(op, a[0], b[0], sh), 'bool', s, sh), s)
    if op in ('eq', 'ne'):
        v = eq_vals(I, l, r, s)
        if v is None:
            return one(Top(), s)
        return one(cbool(cnot(v) if op == 'ne' else v), s)
    a, b = num(l, s), num(r, s)
    if a is not None and b is not None:
        if (isinstance(l, C) and isinstance(l.v, complex)) or (isinstance(r, C) and isinstance(r.v, complex)):
            return one(I.err('TypeError', "'%s' not supported between complex" % op, n), s)
        return one(cbool(cmp_scalar(op, a[0], b[0])), s)
    if isinstance(l, C) and isinstance(r, C):
        try:
            return one(C({'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y}[op](l.v, r.v)), s)
        except Exception as e:
            return one(I.err('TypeError', str(e), n), s)
    li, ri = seqitems(l, s), seqitems(r, s)
    if li is not None and ri is not None:
        # lexicographic on the first differing entry when decidable
        for x, y in zip(li, ri):
            e = eq_vals(I, x, y, s)
            if e is True:
                continue
            if e is False:
                return compare(I, op, x, y, s, n)
            return one(N('bool', tm.fresh('cmp')), s)
        return one(C({'lt': len(li) < len(ri), 'le': len(li) <= len(ri), 'gt': len(li) > len(ri), 'ge': len(li) >= len(ri)}[op]), s)
    if isinstance(l, R) and isinstance(s.heap.get(l.id), HSet):
        return one(Top(), s)
    if isinstance(l, XO) or isinstance(r, XO) or (isinstance(l, N) and isinstance(r, (N, C))) or (isinstance(r, N) and isinstance(l, C)):
        if any(isinstance(x, C) and x.v is None for x in (l, r)):
            return one(I.err('TypeError', "'%s' not supported between instances" % op, n), s)
        return one(Top(), s)
    return one(I.err('TypeError', "'%s' not supported between instances of %s and %s" % (op, type_name(I, l, s), type_name(I, r, s)), n), s)


def settled(m):
    """the truth values of an (in)equality mask for data in general position"""
    if m.shape is None or not tm.conc(m.shape) or not 0 < tm.nelem(m.shape) <= 64:
        return None
    if m.op == 'uf' and m.args[0] in ('aeq', 'ane') and all(x.shape in ((), m.shape) for x in m.args[1:3]):
        es = [cmp_scalar(m.args[0][1:], x, y) for x, y in
              zip(*[tm.entries(x) if x.shape == m.shape else [x] * tm.nelem(m.shape) for x in m.args[1:3]])]
    elif m.op == 'lit':
        es = m.args
    else:
        return None
    out = []
    for e in es:
        k = e if isinstance(e, bool) else bool(e.args[0]) if e.op == 'const' else tm.exact_truth(e)
        if k is None:
            return None
        out.append(tm.const(int(k)))
    return tm.lit(out, m.shape)


def small_mask(m, t):
    """the mask of the entries of t that are small in magnitude"""
    if m.op == 'lit':
        if t.shape != m.shape or not tm.conc(t.shape):
            return False
        es = tm.entries(t)
        for c, e in zip(m.args, es):
            if c.op == 'const' and not c.args[0]:
                continue
            b = c.args[0] if c.op == 'not' else c
            if any(isinstance(x, tm.T) and tm.constval(x) is not None and not tm.tolerance(x) for x in b.args[1:3]):
                return False
            if not (c.op == 'uf' and c.args[0] == 'lt' and c.args[1].op == 'uf' and c.args[1].args[0] == 'abs' and c.args[1].args[1] is e):
                if not (c.op == 'not' and c.args[0].op == 'uf' and c.args[0].args[0] == 'lt' and c.args[0].args[2].op == 'uf' and
                        c.args[0].args[2].args[0] == 'abs' and c.args[0].args[2].args[1] is e) and \
                        not (c.op == 'const' and tm.is_zero(e)):
                    return False
        return True
    if m.op != 'uf':
        return False
    a, b = m.args[1:3] if m.args[0] in ('alt', 'ale') else m.args[2:0:-1] if m.args[0] in ('agt', 'age') else (None, None)
    if a is not None and tm.constval(b) is not None and not tm.tolerance(b):
        return False
    return a is not None and a.op == 'uf' and a.args[0] == 'abs' and a.args[1] is t


def acmp(op, ta, tb, sh):
    if sh is not None and tm.conc(sh) and tm.nelem(sh) <= 64 and tm.entrywise(ta) and tm.entrywise(tb):
        return tm.lit([centry(cmp_scalar(op, x, y)) for x, y in zip(tm.bentries(ta, sh), tm.bentries(tb, sh))], sh)
    if sh is not None and tm.conc(sh) and tm.nelem(sh) == 0:
        return tm.lit((), sh)
    return tm.uf('a' + op, (ta, tb), sh)


def identity(I, l, r, s):
    for x, y in ((l, r), (r, l)):
        if isinstance(x, C) and (x.v is None or isinstance(x.v, bool) or x.v is Ellipsis):
            if isinstance(y, C):
                return x.v is y.v
            if isinstance(y, Top):
                return None
            if isinstance(y, XO) and y.tag == 'obj':
                return None
            if isinstance(x.v, bool) and isinstance(y, N) and y.kind == 'bool' and not y.isnp:
                c = as_cond(y)
                return c if x.v else cnot(c)
            return False
    if isinstance(l, Top) or isinstance(r, Top):
        return None
    if isinstance(l, C) and isinstance(r, C):
        return l == r if isinstance(l.v, (str, int)) else None
    if isinstance(l, (R, K, Fn, X, Mod, A)) or isinstance(r, (R, K, Fn, X, Mod, A)):
        return l == r
    if isinstance(l, Tu) and isinstance(r, Tu):
        return None
    return None


def contains(I, l, r, s, n):
    if isinstance(r, C) and isinstance(r.v, str):
        if isinstance(l, C):
            if isinstance(l.v, str):
                return l.v in r.v
            return I.err('TypeError', "'in <string>' requires string as left operand", n)
        return None
    items = None
    if isinstance(r, R):
        h = s.heap.get(r.id)
        if isinstance(h, HDict):
            if isinstance(l, C):
                try:
                    if dkey(l) in h.items:
                        return True
                except TypeError:
                    return I.err('TypeError', 'unhashable type', n)
                return None if h.open_ else False
            if h.open_:
                return None
            items = [k for k, _ in h.items.values()]
        elif isinstance(h, HSet):
            if h.open_:
                return None
            items = list(h.items)
        elif isinstance(h, HInst):
            return None
    if items is None:
        items = seqitems(r, s)
    if items is None:
        if isinstance(r, A):
            rr = compare(I, 'eq', r, l, s, n)[0][0]
            if isinstance(rr, A):
                return any_cond(aterm(rr, s), 'bool')
            return None
        if isinstance(r, C) or isinstance(r, N):
            if isinstance(r, N) and r.kind == 'str':
                return None
            return I.err('TypeError', 'argument of type %s is not iterable' % type_name(I, r, s), n)
        return None
    cs = []
    for x in items:
        if I.inst(x, s) is not None or I.inst(l, s) is not None:
            cs.append(x == l)
        else:
            c = eq_vals(I, l, x, s)
            if isinstance(l, A) and not isinstance(x, A) or isinstance(x, A):
                c = True if l == x else None
            cs.append(c)
    if any(c is True for c in cs):
        return True
    if any(c is None for c in cs):
        return None
    return disj(cs)


# ---------------------------------------------------------------- indexing
def parse_index(I, k, s):
    """python index value -> (elements, symbolic?)
    elements: ('i',int) ('s',a,b,c) ('n',) ('e',) ('a',shape,values)
              ('u',term) ('su',a,b,c) ('ua',shape,term) ('m',shape,term)"""
    parts = list(k.items) if isinstance(k, Tu) else [k]
    out = []
    sym = False
    for p in parts:
        if isinstance(p, UV) or isinstance(p, Top):
            raise Unknown()
        if isinstance(p, C):
            if p.v is None:
                out.append(('n',))
            elif p.v is Ellipsis:
                out.append(('e',))
            elif isinstance(p.v, bool):
                raise Unknown()
            elif isinstance(p.v, int):
                out.append(('i', p.v))
            else:
                raise NotNum('IndexError', 'only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices')
        elif isinstance(p, N):
            if p.kind in ('float', 'complex', 'str'):
                raise NotNum('IndexError', 'only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices')
            d = tm.dim_of(p.term)
            if isinstance(d, int):
                out.append(('i', d))
            else:
                out.append(('u', p.term))
                sym = True
        elif isinstance(p, SL):
            vals = []
            bad = False
            for x in (p.a, p.b, p.c):
                if isinstance(x, C) and (x.v is None or isinstance(x.v, int)):
                    vals.append(None if x.v is None else int(x.v))
                elif isinstance(x, N) and x.kind in ('int', 'num', 'bool'):
                    d = tm.dim_of(x.term)
                    vals.append(d)
                    bad = bad or not isinstance(d, int)
                elif isinstance(x, C) or (isinstance(x, N) and x.kind in ('float', 'complex', 'str')):
                    raise NotNum('TypeError', 'slice indices must be integers or None or have an __index__ method')
                else:
                    raise Unknown()
            if bad:
                out.append(('su',) + tuple(vals))
                sym = True
            else:
                out.append(('s',) + tuple(vals))
        else:
            t, sh, dt = arrayify(I, p, s)
            if sh is None:
                raise Unknown()
            if dt == 'bool':
                if tm.conc(sh) and t.op == 'lit' and all(e.op == 'const' for e in t.args):
                    idxs = [ii for ii, e in zip(tm._indices(sh), t.args) if e.args[0]]
                    for ax in range(len(sh)):
                        out.append(('a', (len(idxs),), tuple(ii[ax] for ii in idxs)))
                else:
                    out.append(('m', sh, t))
                    sym = True
            elif dt == 'float' and not (tm.conc(sh) and tm.nelem(sh) == 0):
                raise NotNum('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            elif tm.conc(sh) and (tm.nelem(sh) == 0 or all(e.op == 'const' for e in tm.entries(t))):
                out.append(('a', tuple(sh), tuple(e.args[0] for e in tm.entries(t)) if tm.nelem(sh) else ()))
            else:
                out.append(('ua', tuple(sh), t))
                sym = True
    return tuple(out), sym


def sym_index_shape(shape, idx):
    """result shape for partially unknown indices"""
    if shape is None:
        return None, False
    idx = list(idx)
    nreal = sum(len(e[1]) if e[0] == 'm' else 1 for e in idx if e[0] not in ('n', 'e'))
    if nreal > len(shape):
        raise IndexError('too many indices for array')
    if not any(e[0] == 'e' for e in idx):
        idx.append(('e',))
    fl = []
    for e in idx:
        if e[0] == 'e':
            fl += [('s', None, None, None)] * (len(shape) - nreal)
        else:
            fl.append(e)
    out, adv, advpos = [], (), None
    ax = 0
    view = True
    for e in fl:
        if e[0] == 'n':
            out.append(1)
            continue
        if e[0] == 'm':
            mx = 1
            for d in e[1]:
                mx = None if mx is None or not isinstance(d, int) else mx * d
            adv = (tm.dimvar('mask', 0, mx),)
            if advpos is None:
                advpos = len(out)
            ax += len(e[1])
            view = False
            continue
        d = shape[ax]
        ax += 1
        if e[0] in ('i', 'u'):
            if e[0] == 'i' and isinstance(d, int) and not -d <= e[1] < d:
                raise IndexError('index %d is out of bounds for axis with size %d' % (e[1], d))
            continue
        if e[0] in ('a', 'ua'):
            adv = tm.bshape(adv, e[1])
            if advpos is None:
                advpos = len(out)
            view = False
            continue
        out.append(slice_len(d, e[1:]))
    if advpos is not None:
        out[advpos:advpos] = list(adv)
    return tuple(out), view


def slice_len(d, sl):
    a, b, c = sl
    if isinstance(d, int) and all(x is None or isinstance(x, int) for x in sl):
        return len(range(d)[slice(a, b, c)])
    if c is not None and c not in (1, -1):
        return tm.dimvar('sl', 0, d if isinstance(d, int) else None)
    if c == -1:
        if a is None and b is None:
            return d
        return tm.dimvar('sl', 0, d if isinstance(d, int) else None)
    dt = tm.dim_term(d)

    def bound(x, default):
        if x is None:
            return default
        t = tm.dim_term(x)
        lo, hi = tm.ibounds(t)
        if hi is not None and hi < 0:
            return tm.iadd(dt, t)
        if lo is not None and lo >= 0:
            return t
        return None
    lo, hi = bound(a, tm.ZERO), bound(b, dt)
    if lo is None or hi is None:
        return tm.dimvar('sl', 0, d if isinstance(d, int) else None)
    # clip at the length when that cannot be excluded
    def clip(t):
        l, h = tm.ibounds(tm.iadd(dt, t, -1))
        return l is not None and l >= 0
    if not clip(hi) or not clip(lo):
        if not (isinstance(d, int) is False and not isinstance(hi, int)):
            return tm.dimvar('sl', 0, d if isinstance(d, int) else None)
    ln = tm.iadd(hi, lo, -1)
    l, h = tm.ibounds(ln)
    if h is not None and h <= 0:
        return 0
    if l is not None and l < 0:
        return tm.dimvar('sl', 0, h)
    return tm.dim_of(ln)


BASIC = ('i', 's', 'n', 'e', 'u', 'su')


def idx_key(idx):
    out = []
    for e in idx:
        for x in e:
            out.append(x if isinstance(x, tm.T) else repr(x))
    return tuple(out)


def getitem(I, o, k, s, n):
    if isinstance(o, A):
        try:
            idx, sym = parse_index(I, k, s)
            if o.shape is None:
                return one(Top(), s)
            if not sym and tm.conc(o.shape):
                rsh, _ = tm.index_map(o.shape, idx)
                basic = all(e[0] in BASIC for e in idx)
                t0 = aterm(o, s)
                if basic and rsh != ():
                    return one(A(o.buf, rsh, o.dtype, o.view + (('idx', idx),)), s)
                return one(from_term(tm.getitem(t0, idx), o.dtype, s), s)
            rsh, view = sym_index_shape(o.shape, idx)
            if rsh == ():
                return one(from_term(tm.uf('getitem', (aterm(o, s),) + idx_key(idx), ()), o.dtype, s), s)
            if view:
                return one(A(o.buf, rsh, o.dtype, o.view + (('sidx', idx_key(idx), rsh),)), s)
            t = aterm(o, s)
            return one(s.new_arr(tm.uf('getitem', (t,) + idx_key(idx), rsh), o.dtype, rsh), s)
        except Unknown:
            return one(Top(), s)
        except NotNum as e:
            return one(I.err(e.exc, e.msg, n), s)
        except IndexError as e:
            return one(I.err('IndexError', str(e), n), s)
        except ShapeError as e:
            return one(I.err('IndexError', str(e), n), s)
    if isinstance(o, Top):
        return one(Top(), s)
    if isinstance(o, Tu):
        return seq_getitem(I, o, list(o.items), k, s, n, Tu)
    if isinstance(o, R):
        h = s.heap.get(o.id)
        if isinstance(h, HList):
            if h.items is not None:
                return seq_getitem(I, o, h.items, k, s, n, s.new_list)
            e = I.refresh(h.elem, s) if h.elem is not None else Top()
            if isinstance(k, SL):
                return one(s.unk_list(h.elem if h.elem is not None else Top()), s)
            ex = I.mayraise('IndexError', 'list index out of range', n, s)
            if isinstance(e, UV):
                return I.split(e, s, lambda a, t: [(a, t)]) + ex
            return [(e, s)] + ex
        if isinstance(h, HDict):
            if isinstance(k, C):
                try:
                    v = h.items.get(dkey(k))
                except TypeError:
                    return one(I.err('TypeError', 'unhashable type', n), s)
                if v is not None:
                    if isinstance(v[1], UV):
                        return I.split(v[1], s, lambda a, t: [(a, t)])
                    return one(v[1], s)
                if not h.open_:
                    return one(I.err('KeyError', repr(k.v), n), s)
                return one(Top(), s)
            if h.open_ or not h.items:
                return one(Top(), s) if h.open_ else one(I.err('KeyError', '', n), s)
            # unknown key: any of the entries, or KeyError
            out = []
            for kk, v in h.items.values():
                c = eq_vals(I, k, kk, s)
                if c is False:
                    continue
                if c is True:
                    return one(v, s)
                t = s.fork()
                if c is not None:
                    t.assume[c] = True
                else:
                    t.vague += 1
                out.append((v, t))
            return out + [(I.err('KeyError', 'unknown key', n), s)]
    if isinstance(o, X):
        if o.path in ('numpy.r_', 'numpy.c_', 'numpy.s_', 'numpy.index_exp', 'numpy.mgrid', 'numpy.ogrid'):
            from . import npmodel
            return npmodel.index_trick(I, o.path, k, s, n)
        if o.path.startswith('matplotlib'):
            return one(XO('obj'), s)
        return one(Top(), s)
    if isinstance(o, C) and isinstance(o.v, str):
        if isinstance(k, C):
            try:
                return one(C(o.v[k.v]), s)
            except Exception as e:
                return one(I.err(type(e).__name__, str(e), n), s)
        if isinstance(k, SL) and all(isinstance(x, C) for x in (k.a, k.b, k.c)):
            return one(C(o.v[slice(k.a.v, k.b.v, k.c.v)]), s)
        return one(N('str', tm.fresh('ch')), s)
    if isinstance(o, N) and o.kind == 'str':
        return one(N('str', tm.uf('strget', (o.term, repr(k)), ())), s)
    if isinstance(o, XO):
        return one(XO('obj'), s)
    if isinstance(o, N) and o.isnp:
        return one(I.err('IndexError', 'invalid index to scalar variable.', n), s)
    return one(I.err('TypeError', '%s object is not subscriptable' % type_name(I, o, s), n), s)


def seq_getitem(I, o, items, k, s, n, build):
    if isinstance(k, C) and isinstance(k.v, int):
        try:
            v = items[k.v]
        except IndexError:
            return one(I.err('IndexError', 'index out of range', n), s)
        if isinstance(v, UV):
            return I.split(v, s, lambda a, t: [(a, t)])
        return one(v, s)
    if isinstance(k, SL):
        if all(isinstance(x, C) for x in (k.a, k.b, k.c)):
            try:
                return one(build(items[slice(k.a.v, k.b.v, k.c.v)]), s)
            except Exception as e:
                return one(I.err(type(e).__name__, str(e), n), s)
        return one(s.unk_list(merge_elems(items) if items else Top()), s)
    if isinstance(k, N) and k.kind in ('int', 'bool', 'num'):
        if not items:
            return one(I.err('IndexError', 'index out of range', n), s)
        d = tm.dim_of(k.term)
        if isinstance(d, int):
            return seq_getitem(I, o, items, C(d), s, n, build)
        out = []
        for i, v in enumerate(items):
            c = cmp_scalar('eq', k.term, tm.const(i))
            if c is False:
                continue
            t = s.fork()
            if c is not True:
                if t.assume.get(c) is False:
                    continue
                t.assume[c] = True
            out.append((v, t))
        return out or one(Top(), s)
    if isinstance(k, Top):
        return one(Top(), s)
    if isinstance(k, C) and isinstance(k.v, bool):
        return seq_getitem(I, o, items, C(int(k.v)), s, n, build)
    return one(I.err('TypeError', 'indices must be integers or slices, not %s' % type_name(I, k, s), n), s)


def setitem(I, o, k, v, s, n):
    if isinstance(o, A):
        try:
            if isinstance(v, Top):
                awrite(I, A(o.buf, None, o.dtype, ()), tm.mk('leaf', ('unk#%d' % new_id(), ()), s.get(o.buf).term.shape), s, n)
                return one(None, s)
            idx, sym = parse_index(I, k, s)
            tv, shv, dv = arrayify(I, v, s, o.dtype if o.dtype in ('float', 'complex') else None)
            if dv == 'complex' and o.dtype in ('float', 'int') and not isinstance(v, A):
                # numpy refuses complex scalars into real arrays
                if shv == ():
                    return one(I.err('TypeError', 'float() argument must be a real number, not complex', n), s)
            if dv == 'object' and o.dtype in ('float', 'int', 'complex'):
                return one(I.err('TypeError', 'cannot store object in numeric array', n), s)
            if not sym and tm.conc(o.shape) and shv is not None and tm.conc(shv):
                t0 = aterm(o, s)
                rsh, offs = tm.index_map(o.shape, idx)
                if o.dtype in ('int', 'bool') and dv in ('float', 'complex', 'num', 'unk'):
                    tv = trunc(tv)
                elif o.dtype == 'float' and dv == 'complex':
                    tv = eltwise1('real', tv)
                new = tm.setflat(t0, offs, rsh, tv)
                awrite(I, o, new, s, n)
                return one(None, s)
            t0 = aterm(o, s)
            if len(idx) == 1 and idx[0][0] == 'm' and shv == ():
                m = idx[0][2]
                if all(tm.below(c) is False for c in (m.args if m.op == 'lit' else (m,))):
                    # nothing exceeds a bound that large
                    return one(None, s)
                if tm.is_zero(tv) and small_mask(m, t0):
                    awrite(I, o, tm.uf('thresh', (t0,), t0.shape), s, n)
                    return one(None, s)
                awrite(I, o, tm.uf('maskset', (t0, m, tv), t0.shape), s, n)
                return one(None, s)
            if o.shape is not None:
                rsh, _ = sym_index_shape(o.shape, idx)
                if shv is not None and rsh is not None:
                    vs = tuple(shv)
                    while len(vs) > len(rsh) and vs and vs[0] == 1:
                        vs = vs[1:]
                    if len(vs) > len(rsh):
                        raise ShapeError('could not broadcast input array from shape %s into shape %s' % (shv, rsh))
                    b = tm.bshape(vs, rsh)
                    for x, y in zip(b, rsh):
                        if isinstance(x, int) and isinstance(y, int) and x != y:
                            raise ShapeError('could not broadcast input array from shape %s into shape %s' % (shv, rsh))
            awrite(I, o, tm.uf('setitem', (t0,) + idx_key(idx) + (tv,), t0.shape), s, n)
            return one(None, s)
        except Unknown:
            awrite(I, A(o.buf, None, o.dtype, ()), tm.mk('leaf', ('unk#%d' % new_id(), ()), s.get(o.buf).term.shape), s, n)
            return one(None, s)
        except NotNum as e:
            return one(I.err(e.exc, e.msg, n), s)
        except IndexError as e:
            return one(I.err('IndexError', str(e), n), s)
        except ShapeError as e:
            return one(I.err('ValueError', str(e), n), s)
    if isinstance(o, R):
        h = s.heap.get(o.id)
        if isinstance(h, HList):
            h = s.mut(o.id)
            I.note_write(o, s, n)
            if h.items is not None and isinstance(k, C) and isinstance(k.v, int):
                try:
                    h.items[k.v] = v
                except IndexError:
                    return one(I.err('IndexError', 'list assignment index out of range', n), s)
                return one(None, s)
            if h.items is not None and isinstance(k, SL) and all(isinstance(x, C) for x in (k.a, k.b, k.c)):
                it = seqitems(v, s)
                if it is not None:
                    try:
                        h.items[slice(k.a.v, k.b.v, k.c.v)] = it
                        return one(None, s)
                    except ValueError as e:
                        return one(I.err('ValueError', str(e), n), s)
            e = I.list_elem(h)
            es = [x for x in (e, v) if x is not None]
            if h.items is not None and not isinstance(k, SL):
                h.items = [union([x, v]) for x in h.items]
                return one(None, s)
            h.elem = merge_elems(es)
            if h.items is not None:
                h.length = tm.const(len(h.items)) if not isinstance(k, SL) else tm.dimvar('len')
                h.items = None
            return one(None, s)
        if isinstance(h, HDict):
            h = s.mut(o.id)
            I.note_write(o, s, n)
            try:
                h.items[dkey(k)] = (k, v)
            except TypeError:
                return one(I.err('TypeError', 'unhashable type', n), s)
            return one(None, s)
    if isinstance(o, Tu) or (isinstance(o, (C, N))):
        return one(I.err('TypeError', '%s object does not support item assignment' % type_name(I, o, s), n), s)
    if isinstance(o, X):
        s.event('ext-write', o.path, '[]', I.where(n))
    return one(None, s)


# --------------------------------------------------------------- iteration
def iterate(I, v, s, n, want=None):
    if isinstance(v, A):
        if v.shape is None:
            return one(('unk', Top(), None), s)
        if v.shape == ():
            return one(I.err('TypeError', 'iteration over a 0-d array', n), s)
        d = v.shape[0]
        if isinstance(d, int) and d <= 600:
            out = []
            for i in range(d):
                r = getitem(I, v, C(i), s, n)
                out.append(r[0][0])
            return one(out, s)
        t = aterm(v, s)
        if len(v.shape) == 1:
            return one(('unk', N(v.dtype if v.dtype in ORDER else 'num', tm.fresh('el'), True), tm.dim_term(d)), s)
        return one(('unk', A(v.buf, v.shape[1:], v.dtype, v.view + (('sidx', ('it%d' % new_id(),), v.shape[1:]),)), tm.dim_term(d)), s)
    if isinstance(v, C) and isinstance(v.v, str):
        return one([C(c) for c in v.v], s)
    if isinstance(v, N) and v.kind == 'str':
        return one(('unk', N('str', tm.fresh('ch')), None), s)
    if isinstance(v, (Top,)):
        return one(('unk', Top(), None), s)
    if isinstance(v, XO):
        if v.tag == 'cycler':
            # the property cycle matplotlib starts with
            return one([s.new_dict([(C('color'), C('C%d' % i))]) for i in range(10)], s)
        return one(('unk', XO('obj') if v.tag not in ('generator',) else Top(), None), s)
    return one(I.err('TypeError', '%s object is not iterable' % type_name(I, v, s), n), s)


def enter_ctx(I, v, s):
    if v.tag == 'catch_warnings_rec':
        return s.unk_list(XO('obj'))
    return v


# --------------------------------------------------------------- attributes
STRM = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'replace', 'format', 'join', 'split', 'startswith',
        'endswith', 'find', 'index', 'count', 'isdigit', 'isalpha', 'zfill', 'ljust', 'rjust', 'center', 'casefold', 'splitlines',
        'partition', 'encode', 'swapcase', 'expandtabs', 'isnumeric', 'isspace', 'islower', 'isupper', 'removeprefix', 'removesuffix'}


def getattr_(I, o, name, s, n):
    if isinstance(o, X):
        if name in ('__name__', '__qualname__'):
            return one(C(o.path.split('.')[-1]), s)
        return one(resolve(o.path + '.' + name), s)
    if isinstance(o, A):
        if name == 'shape':
            if o.shape is None:
                return one(Top(), s)
            return one(Tu([dimval(d) for d in o.shape]), s)
        if name == 'ndim':
            return one(C(len(o.shape)) if o.shape is not None else N('int', tm.dimvar('ndim', 0, 3)), s)
        if name == 'size':
            if o.shape is None:
                return one(N('int', tm.dimvar('size')), s)
            t = tm.ONE
            for d in o.shape:
                t = tm.imul(t, tm.dim_term(d))
            return one(dimval(tm.dim_of(t)), s)
        if name == 'T':
            if o.shape is None or len(o.shape) >= 2:
                sh = None if o.shape is None else tuple(reversed(o.shape))
                ax = None if o.shape is None else tuple(reversed(range(len(o.shape))))
                return one(A(o.buf, sh, o.dtype, o.view + (('T', ax),)), s)
            return one(o, s)
        if name == 'dtype':
            return one(XO('dtype:' + o.dtype), s)
        if name == 'real':
            if o.dtype == 'complex' or o.dtype not in ORDER:
                return one(A(o.buf, o.shape, 'float' if o.dtype == 'complex' else o.dtype, o.view + (('real',),)), s)
            return one(o, s)
        if name == 'imag':
            if o.dtype in ('float', 'int', 'bool') and tm.conc(o.shape):
                return one(s.new_arr(tm.zeros(o.shape), o.dtype), s)
            return one(A(o.buf, o.shape, 'float', o.view + (('imag',),)), s)
        if name == 'flat':
            return one(A(o.buf, flatshape(o.shape), o.dtype, o.view + (('reshape', flatshape(o.shape)),)), s)
        if name in ('flags', 'base', 'strides', 'nbytes', 'itemsize', 'data'):
            return one(Top(), s)
        if name in METH or 'numpy.' + name in REG and name in ARRMETH:
            return one(BX(o, name), s)
        if name in ARRMETH:
            return one(BX(o, name), s)
        return one(I.err('AttributeError', "'numpy.ndarray' object has no attribute %r" % name, n), s)
    if isinstance(o, Top):
        return one(Top(), s)
    if isinstance(o, C):
        if isinstance(o.v, str):
            if name in STRM or hasattr(str, name):
                return one(BX(o, name), s)
        elif isinstance(o.v, (int, float, complex, bool)):
            if name in ('real', 'imag'):
                return one(C(getattr(o.v, name)), s)
            if hasattr(o.v, name):
                return one(BX(o, name), s)
        if isinstance(o.v, type(None)) and name == '__class__':
            return one(X('builtins.NoneType'), s)
        return one(I.err('AttributeError', '%r object has no attribute %r' % (type(o.v).__name__, name), n), s)
    if isinstance(o, N):
        if o.kind == 'str':
            if hasattr(str, name):
                return one(BX(o, name), s)
            return one(I.err('AttributeError', "'str' object has no attribute %r" % name, n), s)
        if name == 'real':
            return one(o if o.kind in ('int', 'float', 'bool') else N('float', eltwise1('real', o.term), o.isnp), s)
        if name == 'imag':
            return one(N('float', tm.ZERO, o.isnp) if o.kind in ('int', 'float', 'bool') else N('float', eltwise1('imag', o.term), o.isnp), s)
        if o.isnp:
            if name == 'shape':
                return one(Tu([]), s)
            if name == 'ndim':
                return one(C(0), s)
            if name == 'size':
                return one(C(1), s)
            if name == 'T':
                return one(o, s)
            if name == 'dtype':
                return one(XO('dtype:' + o.kind), s)
            if name in METH or name in ARRMETH:
                return one(BX(o, name), s)
        else:
            py = {'int': int, 'float': float, 'complex': complex, 'bool': bool}.get(o.kind)
            if py is not None and hasattr(py, name):
                return one(BX(o, name), s)
        if o.kind == 'num':
            return one(Top(), s)
        return one(I.err('AttributeError', '%r object has no attribute %r' % (o.kind, name), n), s)
    if isinstance(o, Tu):
        if name in ('index', 'count'):
            return one(BX(o, name), s)
        if name.startswith('__') and hasattr(tuple, name):
            return one(BX(o, name), s)
        return one(I.err('AttributeError', "'tuple' object has no attribute %r" % name, n), s)
    if isinstance(o, R):
        h = s.heap.get(o.id)
        py = {'HList': list, 'HDict': dict, 'HSet': set}.get(type(h).__name__)
        if py is not None and hasattr(py, name):
            return one(BX(o, name), s)
        return one(I.err('AttributeError', '%r object has no attribute %r' % (type_name(I, o, s), name), n), s)
    if isinstance(o, XO):
        if o.tag.startswith('dtype:'):
            k = o.tag[6:]
            if name == 'kind':
                return one(C({'float': 'f', 'int': 'i', 'complex': 'c', 'bool': 'b', 'object': 'O', 'str': 'U'}[k]) if k in
                           ('float', 'int', 'complex', 'bool', 'object', 'str') else N('str', tm.fresh('kind')), s)
            if name == 'char':
                return one(C({'float': 'd', 'int': 'l', 'complex': 'D', 'bool': '?', 'object': 'O'}.get(k, 'd')), s)
            if name == 'type':
                return one(X('numpy.' + {'float': 'float64', 'int': 'int64', 'complex': 'complex128', 'bool': 'bool_'}.get(k, 'generic')), s)
            if name == 'name':
                return one(C({'float': 'float64', 'int': 'int64', 'complex': 'complex128'}.get(k, k)), s)
        return one(BX(o, name), s)
    if isinstance(o, BX):
        if name in ('__name__', '__qualname__'):
            return one(C(o.name), s)
        return one(XO('obj'), s)
    if isinstance(o, SL):
        return one({'start': o.a, 'stop': o.b, 'step': o.c}.get(name, BX(o, name)), s)
    if isinstance(o, Partial):
        return one(Top(), s)
    return one(I.err('AttributeError', '%s object has no attribute %r' % (type_name(I, o, s), name), n), s)


ARRMETH = {'tolist', 'ravel', 'flatten', 'reshape', 'squeeze', 'astype', 'copy', 'dot', 'sum', 'max', 'min', 'any', 'all', 'conj',
           'conjugate', 'nonzero', 'item', 'fill', 'sort', 'argsort', 'mean', 'trace', 'diagonal', 'transpose', 'swapaxes', 'round',
           'prod', 'cumsum', 'repeat', 'argmax', 'argmin', 'clip', 'view', 'std', 'var', 'take', 'resize', 'setflags', 'itemset',
           'cumprod', 'ptp', 'searchsorted', 'compress', 'put', 'tobytes', '__len__', '__abs__', '__array_ufunc__'}


def flatshape(sh):
    if sh is None:
        return None
    t = tm.ONE
    for d in sh:
        t = tm.imul(t, tm.dim_term(d))
    return (tm.dim_of(t),)


# ------------------------------------------------------------------- calls
PURE_PREFIX = ('numpy.', 'scipy.', 'math.', 'itertools.', 'functools.', 'operator.', 'copy.', 'collections.', 'tabulate.')


def call(I, f, args, kw, s, n):
    if isinstance(f, Top):
        s.vague += 1
        return one(Top(), s)
    if isinstance(f, XO):
        if f.tag == 'npvectorize':
            return one(Top(), s)
        return one(XO('obj'), s)
    if isinstance(f, BX):
        return call_bx(I, f, args, kw, s, n)
    h = REG.get(f.path)
    if h is not None:
        sig = SIGS.get(f.path)
        if kw and sig and len(args) < len(sig.split()):
            args, kw = list(args), dict(kw)
            for nm in sig.split()[len(args):]:
                if nm not in kw:
                    break
                args.append(kw.pop(nm))
        try:
            return settle(I, h(I, args, kw, s, n))
        except (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError):
            I.model_errors[f.path] = I.model_errors.get(f.path, 0) + 1
            return one(Top(), s)
    b = f.path.split('.')[-1]
    if f.path.startswith('builtins.'):
        c = getattr(_bi, b, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return one(XO('exc:' + b), s)
    if b in ('LinAlgError', 'LinAlgWarning', 'UFuncTypeError') or b.endswith(('Error', 'Warning')):
        return one(XO('exc:' + b), s)
    if f.path.startswith(('numpy.random.', 'random.', 'scipy.stats.', 'time.', 'os.urandom', 'secrets.')):
        s.event('random', f.path, I.where(n))
        return random_model(I, f.path, args, kw, s, n)
    I.unknown_ext[f.path] = I.unknown_ext.get(f.path, 0) + 1
    if f.path.startswith(('matplotlib', 'cycler')):
        return one(XO('obj'), s)
    if not f.path.startswith(PURE_PREFIX):
        s.event('ext-call', f.path, I.where(n))
    return one(Top(), s)


def settle(I, rs):
    """integers that count singular values get their value in general position"""
    if not I.general:
        return rs
    out = []
    for v, s in rs:
        if isinstance(v, N) and v.kind == 'int' and v.term.op != 'const':
            k = tm.exact_int(v.term)
            if k is not None:
                v = C(k)
        out.append((v, s))
    return out


def random_model(I, path, args, kw, s, n):
    b = path.split('.')[-1]
    try:
        if b in ('rand', 'randn', 'random_sample', 'random', 'uniform', 'normal', 'standard_normal'):
            if b in ('rand', 'randn'):
                sh = tuple(todim(a) for a in args)
            else:
                sz = kw.get('size', args[0] if args and b in ('random_sample', 'random', 'standard_normal') else (args[2] if len(args) > 2 else None))
                sh = () if sz is None or (isinstance(sz, C) and sz.v is None) else toshape(sz, s)
            if sh == ():
                return one(N('float', tm.fresh('rnd')), s)
            return one(s.new_arr(tm.mk('leaf', ('rnd#%d' % new_id(), ()), tuple(sh)), 'float'), s)
        if b == 'rvs' and args:
            d = todim(args[0])
            return one(s.new_arr(tm.mk('leaf', ('rnd#%d' % new_id(), ()), (d, d)), 'float'), s)
        if b == 'choice':
            sz = arg(args, kw, 1, 'size')
            it = seqitems(args[0], s)
            k = 'float'
            if it and all(isinstance(x, C) and isinstance(x.v, bool) for x in it):
                k = 'bool'
            elif it and all(isinstance(x, C) and isinstance(x.v, int) for x in it):
                k = 'int'
            elif isinstance(args[0], C):
                k = 'int'
            if sz is None or (isinstance(sz, C) and sz.v is None):
                return one(N(k, tm.fresh('rnd'), True), s)
            sh = toshape(sz, s)
            return one(s.new_arr(tm.mk('leaf', ('rnd#%d' % new_id(), ()), tuple(sh)), k), s)
        if b in ('randint', 'integers'):
            sz = kw.get('size')
            if sz is None:
                return one(N('int', tm.dimvar('rnd', None)), s)
            sh = toshape(sz, s)
            return one(s.new_arr(tm.mk('leaf', ('rnd#%d' % new_id(), ()), tuple(sh)), 'int'), s)
    except (Unknown, NotNum):
        pass
    return one(Top(), s)


def call_bx(I, f, args, kw, s, n):
    o, name = f.obj, f.name
    if isinstance(o, (A,)) or (isinstance(o, N) and o.isnp and o.kind != 'str'):
        m = METH.get(name)
        try:
            if m is not None:
                return settle(I, m(I, o, args, kw, s, n))
            g = REG.get('numpy.' + name)
            if g is not None:
                return settle(I, g(I, [o] + args, kw, s, n))
        except Unknown:
            return one(Top(), s)
        except NotNum as e:
            return one(I.err(e.exc, e.msg, n), s)
        except (ShapeError, ) as e:
            return one(I.err('ValueError', str(e), n), s)
        return one(Top(), s)
    if isinstance(o, (C, N)) and ((isinstance(o, C) and isinstance(o.v, str)) or (isinstance(o, N) and o.kind == 'str')):
        return call_str(I, o, name, args, kw, s, n)
    if isinstance(o, (C, N)):
        if isinstance(o, C) and not args:
            try:
                return one(C(getattr(o.v, name)()), s)
            except Exception:
                return one(Top(), s)
        if name == 'conjugate':
            return one(N(o.kind, o.term if o.kind != 'complex' else eltwise1('conj', o.term), o.isnp), s)
        if name == 'is_integer':
            return one(N('bool', tm.uf('cond', ('is_integer', o.term), ())), s)
        return one(Top(), s)
    if isinstance(o, Prop):
        if name == 'setter':
            return one(Prop(o.fget, args[0], o.fdel), s)
        if name == 'getter':
            return one(Prop(args[0], o.fset, o.fdel), s)
        if name == 'deleter':
            return one(Prop(o.fget, o.fset, args[0]), s)
    if isinstance(o, Super):
        return one(NONE, s)
    if isinstance(o, K) and name == '__new__':
        c = args[0] if args and isinstance(args[0], K) else o
        return one(R(s.alloc(HInst(c.cls, {}))), s)
    if isinstance(o, Tu):
        if name == 'index':
            for i, x in enumerate(o.items):
                c = eq_vals(I, x, args[0], s)
                if c is True:
                    return one(C(i), s)
                if c is not False:
                    return one(N('int', tm.dimvar('ix', 0, len(o.items) - 1)), s)
            return one(I.err('ValueError', 'tuple.index(x): x not in tuple', n), s)
        if name == 'count':
            return one(N('int', tm.dimvar('cnt')), s)
        return one(Top(), s)
    if isinstance(o, R):
        h = s.heap.get(o.id)
        if isinstance(h, HList):
            return call_list(I, o, h, name, args, kw, s, n)
        if isinstance(h, HDict):
            return call_dict(I, o, h, name, args, kw, s, n)
        if isinstance(h, HSet):
            return call_set(I, o, h, name, args, kw, s, n)
    if isinstance(o, XO):
        if o.tag in ('axes', 'fig'):
            s.event('draw', o.tag, o.term, name, tuple(args), tuple(sorted(kw.items(), key=lambda x: x[0])), tuple(
                aterm(a, s) if isinstance(a, A) else None for a in args), I.where(n))
            return one(XO('obj'), s)
        return one(XO('obj'), s)
    if isinstance(o, SL) and name == 'indices':
        if all(isinstance(x, C) for x in (o.a, o.b, o.c)) and isinstance(args[0], C):
            return one(Tu([C(q) for q in slice(o.a.v, o.b.v, o.c.v).indices(args[0].v)]), s)
    return one(Top(), s)


def call_str(I, o, name, args, kw, s, n):
    if isinstance(o, C):
        ok = all(isinstance(a, C) for a in args) and all(isinstance(a, C) for a in kw.values())
        if ok:
            try:
                v = getattr(o.v, name)(*[a.v for a in args], **{k: a.v for k, a in kw.items()})
                if isinstance(v, list):
                    return one(s.new_list([C(x) for x in v]), s)
                if isinstance(v, tuple):
                    return one(Tu([C(x) for x in v]), s)
                return one(C(v), s)
            except Exception as e:
                return one(I.err(type(e).__name__, str(e), n), s)
        if name == 'join' and len(args) == 1:
            it = seqitems(args[0], s)
            if it is not None and all(isinstance(x, C) and isinstance(x.v, str) for x in it):
                return one(C(o.v.join(x.v for x in it)), s)
        if name in ('startswith', 'endswith') and isinstance(args[0], Tu) and all(isinstance(x, C) for x in args[0].items):
            return one(C(getattr(o.v, name)(tuple(x.v for x in args[0].items))), s)
    if name in ('lower', 'upper', 'strip', 'casefold', 'title', 'capitalize', 'lstrip', 'rstrip') and isinstance(o, N):
        return one(N('str', tm.uf(name, (o.term,), ())), s)
    if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric', 'islower', 'isupper', 'isspace'):
        return one(N('bool', tm.uf('cond', (name, _st(o)) + tuple(repr(a) for a in args), ())), s)
    if name in ('find', 'index', 'count', 'rfind'):
        return one(N('int', tm.dimvar('sfind', -1)), s)
    if name in ('split', 'splitlines', 'rsplit'):
        return one(s.unk_list(N('str', tm.fresh('sp'))), s)
    if name == 'partition':
        return one(Tu([N('str', tm.fresh('sp')) for _ in range(3)]), s)
    return one(N('str', tm.fresh('str')), s)


def call_list(I, o, h, name, args, kw, s, n):
    if name == 'copy':
        return one(R(s.alloc(h.copy())), s)
    if name == 'index':
        if h.items is not None:
            und = False
            for i, x in enumerate(h.items):
                c = eq_vals(I, x, args[0], s)
                if c is True and not und:
                    return one(C(i), s)
                if c is not False:
                    und = True
            if und:
                return [(N('int', tm.dimvar('ix', 0, len(h.items) - 1)), s)] + I.mayraise('ValueError', 'not in list', n, s)
            return one(I.err('ValueError', 'value is not in list', n), s)
        return one(N('int', tm.dimvar('ix')), s)
    if name == 'count':
        return one(N('int', tm.dimvar('cnt')), s)
    if name == '__len__':
        return one(C(len(h.items)) if h.items is not None else N('int', h.length), s)
    h = s.mut(o.id)
    I.note_write(o, s, n)
    if name == 'append':
        if h.items is not None:
            h.items.append(args[0])
        else:
            h.elem = merge_elems([x for x in (h.elem, args[0]) if x is not None])
            h.length = tm.iadd(h.length, tm.ONE)
        return one(NONE, s)
    if name == 'extend':
        out = []
        for items, t in I.iterate(args[0], s, n):
            if isinstance(items, Raise):
                out.append((items, t))
            else:
                list_extend(I, o, items, t, n)
                out.append((NONE, t))
        return out
    if name == 'insert':
        if h.items is not None and isinstance(args[0], C):
            h.items.insert(args[0].v, args[1])
        else:
            e = I.list_elem(h)
            h.elem = merge_elems([x for x in (e, args[1]) if x is not None])
            h.length = tm.iadd(tm.const(len(h.items)) if h.items is not None else h.length, tm.ONE)
            h.items = None
        return one(NONE, s)
    if name == 'pop':
        if h.items is not None:
            k = args[0] if args else C(-1)
            if isinstance(k, C):
                try:
                    return one(h.items.pop(k.v), s)
                except IndexError:
                    return one(I.err('IndexError', 'pop from empty list' if not h.items else 'pop index out of range', n), s)
        e = I.list_elem(h)
        ln = tm.const(len(h.items)) if h.items is not None else h.length
        h.items, h.elem, h.length = None, e, tm.iadd(ln, tm.ONE, -1)
        if isinstance(e, UV):
            return I.split(e, s, lambda a, t: [(a, t)])
        return one(e if e is not None else Top(), s)
    if name == 'remove':
        if h.items is not None:
            und = False
            for i, x in enumerate(h.items):
                c = eq_vals(I, x, args[0], s) if I.inst(x, s) is None else (x == args[0])
                if c is True and not und:
                    del h.items[i]
                    return one(NONE, s)
                if c is not False:
                    und = True
            if not und:
                return one(I.err('ValueError', 'list.remove(x): x not in list', n), s)
            e = I.list_elem(h)
            h.length = tm.const(len(h.items) - 1)
            h.elem, h.items = e, None
        return one(NONE, s)
    if name == 'clear':
        h.items, h.elem, h.length = [], None, None
        return one(NONE, s)
    if name == 'reverse':
        if h.items is not None:
            h.items.reverse()
        return one(NONE, s)
    if name == 'sort':
        if h.items is not None:
            h.items = sort_items(I, h.items, kw)
        return one(NONE, s)
    return one(Top(), s)


def sort_items(I, items, kw):
    if len(items) <= 1:
        return list(items)
    if all(isinstance(x, C) for x in items) and not kw.get('key'):
        try:
            return sorted(items, key=lambda x: x.v, reverse=bool(kw.get('reverse') and truthy(kw['reverse'])))
        except Exception:
            pass
    e = merge_elems(items)
    return [e if not isinstance(e, N) else N(e.kind, tm.fresh('srt'), e.isnp) for _ in items]


def call_dict(I, o, h, name, args, kw, s, n):
    if name == 'get':
        d = args[1] if len(args) > 1 else NONE
        k = args[0]
        if isinstance(k, C):
            try:
                v = h.items.get(dkey(k))
            except TypeError:
                return one(I.err('TypeError', 'unhashable type', n), s)
            if v is not None:
                return one(v[1], s)
            if not h.open_:
                return one(d, s)
            return one(Top(), s)
        if h.open_:
            return one(Top(), s)
        out = []
        for kk, v in h.items.values():
            c = eq_vals(I, k, kk, s)
            if c is False:
                continue
            if c is True:
                return one(v, s)
            t = s.fork()
            if c is not None:
                t.assume[c] = True
            else:
                t.vague += 1
            out.append((v, t))
        if not out:
            return one(d, s)
        for kk, v in h.items.values():
            c = eq_vals(I, k, kk, s)
            if c is not None and not isinstance(c, bool):
                s.assume[c] = False
        return out + [(d, s)]
    if name in ('keys', 'values', 'items'):
        if h.open_:
            return one(s.unk_list(Top()), s)
        if name == 'keys':
            return one(Tu([k for k, v in h.items.values()]), s)
        if name == 'values':
            return one(Tu([v for k, v in h.items.values()]), s)
        return one(Tu([Tu([k, v]) for k, v in h.items.values()]), s)
    if name == 'copy':
        return one(R(s.alloc(h.copy())), s)
    if name == '__len__':
        return one(C(len(h.items)), s)
    if name == '__contains__':
        v = contains(I, args[0], o, s, n)
        return one(Top() if v is None else cbool(v), s)
    h = s.mut(o.id)
    if name == 'pop':
        k = args[0]
        if isinstance(k, C):
            v = h.items.pop(dkey(k), None)
            if v is not None:
                I.note_write(o, s, n)
                return one(v[1], s)
            if h.open_:
                I.note_write(o, s, n)
                return one(Top(), s)
            if len(args) > 1:
                return one(args[1], s)
            return one(I.err('KeyError', repr(k.v), n), s)
        h.open_ = True
        return one(Top(), s)
    I.note_write(o, s, n)
    if name == 'setdefault':
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        if isinstance(k, C):
            v = h.items.get(dkey(k))
            if v is not None:
                return one(v[1], s)
            if not h.open_:
                h.items[dkey(k)] = (k, d)
                return one(d, s)
        return one(Top(), s)
    if name == 'update':
        if args:
            g = s.heap.get(args[0].id) if isinstance(args[0], R) else None
            if isinstance(g, HDict):
                h.items.update(g.items)
                h.open_ |= g.open_
            else:
                it = seqitems(args[0], s)
                ok = it is not None
                for p in it or []:
                    pi = seqitems(p, s)
                    if pi is not None and len(pi) == 2:
                        h.items[dkey(pi[0])] = (pi[0], pi[1])
                    else:
                        ok = False
                if not ok:
                    h.open_ = True
        for k, v in kw.items():
            h.items[('C', k)] = (C(k), v)
        return one(NONE, s)
    if name == 'clear':
        h.items, h.open_ = {}, False
        return one(NONE, s)
    return one(Top(), s)


def call_set(I, o, h, name, args, kw, s, n):
    if name == 'copy':
        return one(R(s.alloc(h.copy())), s)
    if name in ('union', 'intersection', 'difference', 'symmetric_difference'):
        cur = o
        for a in args:
            r = REG['builtins.set'](I, [a], {}, s, n)
            cur = binop(I, {'union': 'or', 'intersection': 'and', 'difference': 'sub', 'symmetric_difference': 'xor'}[name], cur, r[0][0], s, n)[0][0]
        return one(cur, s)
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        r = REG['builtins.set'](I, [args[0]], {}, s, n)[0][0]
        g = s.heap.get(getattr(r, 'id', None))
        if isinstance(g, HSet) and not g.open_ and not h.open_ and all(isinstance(x, C) for x in g.items + h.items):
            a, b = set(x.v for x in h.items), set(x.v for x in g.items)
            return one(C(getattr(a, name)(b)), s)
        return one(Top(), s)
    h = s.mut(o.id)
    I.note_write(o, s, n)
    if name == 'add':
        if args[0] not in h.items:
            h.items.append(args[0])
    elif name in ('discard', 'remove'):
        if args[0] in h.items:
            h.items.remove(args[0])
        elif name == 'remove' and not h.open_:
            return one(I.err('KeyError', '', n), s)
    elif name == 'update':
        for a in args:
            it = seqitems(a, s)
            if it is None:
                h.open_ = True
            else:
                for x in it:
                    if x not in h.items:
                        h.items.append(x)
    else:
        return one(Top(), s)
    return one(NONE, s)


from . import builtins_model    # noqa: E402,F401
from . import npmodel           # noqa: E402,F401
from . import splib             # noqa: E402,F401
