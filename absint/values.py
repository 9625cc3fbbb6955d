"""Abstract values, heap objects and abstract states."""
from itertools import compress, repeat
from operator import is_, is_not

from . import terms as tm


class V:
    __slots__ = ()
    FIELDS = ()

    def key(self):
        return (self.__class__.__name__,) + tuple(getattr(self, f) for f in self.FIELDS)

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return '%s(%s)' % (self.__class__.__name__, ', '.join('%s' % (getattr(self, f),) for f in self.FIELDS))


class C(V):
    """python constant"""
    __slots__ = ('v',)
    FIELDS = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return ('C', type(self.v).__name__, repr(self.v))


class N(V):
    """unknown scalar; kind in int,float,bool,complex,str,num ; isnp: numpy scalar"""
    __slots__ = ('kind', 'term', 'isnp')
    FIELDS = ('kind', 'term', 'isnp')

    def __init__(self, kind, term, isnp=False):
        self.kind, self.term, self.isnp = kind, term, isnp


class A(V):
    """array handle: buffer id, shape (tuple of dims, or None), dtype, view path"""
    __slots__ = ('buf', 'shape', 'dtype', 'view')
    FIELDS = ('buf', 'shape', 'dtype', 'view')

    def __init__(self, buf, shape, dtype='float', view=()):
        self.buf, self.shape, self.dtype, self.view = buf, shape, dtype, view


class R(V):
    __slots__ = ('id',)
    FIELDS = ('id',)

    def __init__(self, id):
        self.id = id


class Tu(V):
    __slots__ = ('items',)
    FIELDS = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class Fn(V):
    """function defined in the analysed package"""
    __slots__ = ('node', 'mod', 'env', 'name', 'cls', 'defaults', 'kwdefaults', 'info')
    FIELDS = ('name', 'mod')

    def __init__(self, node, mod, env, name, cls=None, defaults=(), kwdefaults=None, info=None):
        self.node, self.mod, self.env, self.name, self.cls = node, mod, env, name, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.info = info

    def key(self):
        return ('Fn', id(self.node), self.env)


class BM(V):
    __slots__ = ('self_', 'fn')
    FIELDS = ('self_', 'fn')

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn


class Cls:
    """class record (static)"""

    def __init__(self, name, mod, bases, attrs):
        self.name, self.mod, self.bases, self.attrs = name, mod, bases, attrs

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, K):
                for c in b.cls.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, X):
                    out.append(b.path)
        return out

    def is_exception(self):
        return any(x.startswith('builtins.') for x in self.ext_bases())


class K(V):
    __slots__ = ('cls',)
    FIELDS = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def key(self):
        return ('K', id(self.cls))


class Mod(V):
    __slots__ = ('name',)
    FIELDS = ('name',)

    def __init__(self, name):
        self.name = name


class X(V):
    """external name (module, function, class or constant)"""
    __slots__ = ('path',)
    FIELDS = ('path',)

    def __init__(self, path):
        self.path = path


class BX(V):
    """method of a builtin/external object"""
    __slots__ = ('obj', 'name')
    FIELDS = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class XO(V):
    """opaque external object"""
    __slots__ = ('tag', 'term')
    FIELDS = ('tag', 'term')

    def __init__(self, tag, term=None):
        self.tag, self.term = tag, term


class SL(V):
    __slots__ = ('a', 'b', 'c')
    FIELDS = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Prop(V):
    __slots__ = ('fget', 'fset', 'fdel')
    FIELDS = ('fget', 'fset')

    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class Static(V):
    __slots__ = ('fn', 'kind')
    FIELDS = ('fn', 'kind')

    def __init__(self, fn, kind):
        self.fn, self.kind = fn, kind


class Partial(V):
    __slots__ = ('fn', 'args', 'kw')
    FIELDS = ('fn', 'args', 'kw')

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Super(V):
    __slots__ = ('self_', 'cls')
    FIELDS = ('self_', 'cls')

    def __init__(self, self_, cls):
        self.self_, self.cls = self_, cls


class Top(V):
    __slots__ = ('term',)
    FIELDS = ('term',)

    def __init__(self, term=None):
        self.term = term


class Undef(V):
    __slots__ = ()


UNDEF = Undef()


class UV(V):
    """one of several values"""
    __slots__ = ('alts',)
    FIELDS = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)


def union(vals):
    out = []
    for v in vals:
        for a in (v.alts if isinstance(v, UV) else (v,)):
            if a not in out:
                out.append(a)
    if len(out) == 1:
        return out[0]
    if len(out) > 6:
        return Top()
    return UV(out)


class Raise:
    """an exception outcome"""

    def __init__(self, exc, msg='', node=None, explicit=False, fn=None, val=None, mod=None):
        self.exc, self.msg, self.node, self.explicit, self.fn = exc, msg, node, explicit, fn
        self.val, self.mod = val, mod
        self.may = False

    def __repr__(self):
        return 'Raise(%s: %s @%s:%s)' % (self.exc, self.msg, self.fn, getattr(self.node, 'lineno', '?'))


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


# ------------------------------------------------------------ heap objects
class H:
    __slots__ = ('own',)

    def copy(self):
        raise NotImplementedError


class HList(H):
    """items: list of values, or None when the length is unknown"""
    __slots__ = ('items', 'elem', 'length', 'owner')

    def __init__(self, items, elem=None, length=None, owner=None):
        self.items, self.elem, self.length, self.owner = items, elem, length, owner

    def copy(self):
        return HList(None if self.items is None else list(self.items), self.elem, self.length, self.owner)


class HDict(H):
    """items: dict const-key -> (keyval, value); open_: unknown other keys"""
    __slots__ = ('items', 'open_', 'owner')

    def __init__(self, items, open_=False, owner=None):
        self.items, self.open_, self.owner = items, open_, owner

    def copy(self):
        return HDict(dict(self.items), self.open_, self.owner)


class HSet(H):
    __slots__ = ('items', 'open_', 'owner')

    def __init__(self, items, open_=False, owner=None):
        self.items, self.open_, self.owner = items, open_, owner

    def copy(self):
        return HSet(list(self.items), self.open_, self.owner)


class HInst(H):
    __slots__ = ('cls', 'attrs', 'owner')

    def __init__(self, cls, attrs, owner=None):
        self.cls, self.attrs, self.owner = cls, attrs, owner

    def copy(self):
        return HInst(self.cls, dict(self.attrs), self.owner)


class HBuf(H):
    __slots__ = ('term', 'owner', 'dtype')

    def __init__(self, term, owner=None, dtype='float'):
        self.term, self.owner, self.dtype = term, owner, dtype

    def copy(self):
        return HBuf(self.term, self.owner, self.dtype)


class HEnv(H):
    __slots__ = ('vars', 'parent', 'locals', 'mod', 'fn', 'globals_', 'nonlocals')

    def __init__(self, vars, parent, locals_, mod, fn=None, globals_=(), nonlocals=()):
        self.vars, self.parent, self.locals, self.mod, self.fn = vars, parent, locals_, mod, fn
        self.globals_, self.nonlocals = globals_, nonlocals

    def copy(self):
        return HEnv(dict(self.vars), self.parent, self.locals, self.mod, self.fn, self.globals_, self.nonlocals)


_ids = [0]


def new_id():
    _ids[0] += 1
    return _ids[0]


class Heap(dict):
    """objects of a state on top of the (never changed) objects of the loaded package"""
    __slots__ = ('base',)

    def __init__(self, own, base):
        dict.__init__(self, own)
        self.base = base

    def __missing__(self, i):
        return self.base[i]

    def get(self, i, d=None):
        r = dict.get(self, i)
        return r if r is not None else self.base.get(i, d)

    def __contains__(self, i):
        return dict.__contains__(self, i) or i in self.base

    def copy(self):
        return Heap(self, self.base)


class S:
    """abstract state"""
    __slots__ = ('heap', 'uid', 'assume', 'env', 'writes', 'vague', 'events', 'excs')

    def __init__(self):
        self.heap = {}
        self.uid = object()
        self.assume = {}
        self.env = None
        self.writes = {}
        self.vague = 0
        self.events = ()
        self.excs = ()

    def fork(self):
        s = S.__new__(S)
        s.heap = self.heap.copy()
        self.uid = object()
        s.uid = object()
        s.assume = dict(self.assume)
        s.env = self.env
        s.writes = dict(self.writes)
        s.vague = self.vague
        s.events = self.events
        s.excs = self.excs
        return s

    def alloc(self, h):
        i = new_id()
        h.own = self.uid
        self.heap[i] = h
        return i

    def get(self, i):
        return self.heap[i]

    def mut(self, i):
        h = self.heap[i]
        if h.own is not self.uid:
            h = h.copy()
            h.own = self.uid
            self.heap[i] = h
        return h

    # -- convenience
    def new_list(self, items, owner=None):
        return R(self.alloc(HList(list(items), owner=owner)))

    def unk_list(self, elem, length=None):
        if length is None:
            length = tm.dimvar('len')
        return R(self.alloc(HList(None, elem, length)))

    def new_dict(self, pairs=(), open_=False):
        return R(self.alloc(HDict({dkey(k): (k, v) for k, v in pairs}, open_)))

    def new_arr(self, term, dtype='float', shape='term', owner=None):
        b = self.alloc(HBuf(term, owner, dtype))
        return A(b, term.shape if shape == 'term' else shape, dtype)

    def event(self, *e):
        self.events = self.events + (e,)


def dkey(k):
    if isinstance(k, C):
        return ('C', k.v) if not isinstance(k.v, bool) else ('C', int(k.v))
    return k.key()


# ------------------------------------------------------------------ joins
class Joiner:
    """join of two abstract states that stem from a common ancestor"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.out = a.fork()
        self.pairs = {}

    def run(self):
        a, b, out = self.a, self.b, self.out
        todo = []
        ah = a.heap
        aget, bget = dict.get.__get__(ah), dict.get.__get__(b.heap)
        for i in list(compress(b.heap, map(is_not, map(aget, b.heap), b.heap.values()))):
            if i in ah:
                todo.append(i)
            else:
                out.heap[i] = b.heap[i]
        if isinstance(b.heap, Heap):
            base = b.heap.base
            for i in list(compress(ah, map(is_, map(bget, ah), repeat(None)))):
                if i in base and ah[i] is not base[i]:
                    todo.append(i)
        for i in todo:
            self.join_obj(i, i)
        out.assume = {k: v for k, v in a.assume.items() if b.assume.get(k, None) == v and k in b.assume}
        w = dict(b.writes)
        w.update(a.writes)
        out.writes = w
        out.vague = max(a.vague, b.vague)
        if a.events != b.events:
            seen = list(a.events)
            for e in b.events:
                if e not in seen:
                    seen.append(e)
            out.events = tuple(seen)
        return out

    def join_obj(self, i, j):
        if (i, j) in self.pairs:
            return
        self.pairs[(i, j)] = i
        x, y = self.a.heap[i], self.b.heap[j]
        o = self.out
        if x is y:
            return
        if type(x) is not type(y):
            return
        if isinstance(x, HEnv):
            n = HEnv({}, x.parent, x.locals, x.mod, x.fn, x.globals_, x.nonlocals)
            n.own = o.uid
            o.heap[i] = n
            for k in list(x.vars) + [k for k in y.vars if k not in x.vars]:
                n.vars[k] = self.val(x.vars.get(k, UNDEF), y.vars.get(k, UNDEF))
        elif isinstance(x, HInst):
            n = HInst(x.cls, {}, x.owner)
            n.own = o.uid
            o.heap[i] = n
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                n.attrs[k] = self.val(x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF))
        elif isinstance(x, HBuf):
            if x.term is y.term and x.dtype == y.dtype:
                return
            sh = join_shape(x.term.shape, y.term.shape)
            n = HBuf(phi(x.term, y.term, sh), x.owner, join_dtype(x.dtype, y.dtype))
            n.own = o.uid
            o.heap[i] = n
        elif isinstance(x, HList):
            n = HList(None, owner=x.owner)
            n.own = o.uid
            o.heap[i] = n
            if x.items is not None and y.items is not None and len(x.items) == len(y.items):
                n.items = [self.val(p, q) for p, q in zip(x.items, y.items)]
            else:
                el = []
                for h in (x, y):
                    if h.items is not None:
                        el += h.items
                    elif h.elem is not None:
                        el.append(h.elem)
                e = None
                for v in el:
                    e = v if e is None else self.val(e, v)
                n.elem = e
                lo = min([len(h.items) if h.items is not None else (tm.ibounds(h.length)[0] or 0) for h in (x, y)])
                n.length = tm.dimvar('len', lo)
        elif isinstance(x, HDict):
            n = HDict({}, x.open_ or y.open_, x.owner)
            n.own = o.uid
            o.heap[i] = n
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                if k in x.items and k in y.items:
                    n.items[k] = (x.items[k][0], self.val(x.items[k][1], y.items[k][1]))
                else:
                    n.open_ = True
                    n.items[k] = x.items.get(k) or y.items.get(k)
        elif isinstance(x, HSet):
            n = HSet([v for v in x.items if v in y.items], True, x.owner)
            n.own = o.uid
            o.heap[i] = n

    def val(self, p, q):
        if p is q or p == q:
            return p
        if isinstance(p, UV) or isinstance(q, UV):
            return union([p, q])
        if p is UNDEF or q is UNDEF:
            return union([p, q])
        if isinstance(p, R) and isinstance(q, R):
            i, j = p.id, q.id
            if i in self.b.heap or j in self.a.heap:
                return union([p, q])
            x, y = self.a.heap[i], self.b.heap[j]
            if type(x) is type(y) and (not isinstance(x, HInst) or x.cls is y.cls):
                got = [k for k in self.pairs if k[0] == i or k[1] == j]
                if got and got != [(i, j)]:
                    return union([p, q])
                self.join_obj(i, j)
                return p
            return union([p, q])
        if isinstance(p, A) and isinstance(q, A):
            i, j = p.buf, q.buf
            dt = join_dtype(p.dtype, q.dtype)
            sh = join_shape(p.shape, q.shape)
            if i == j:
                if p.view == q.view:
                    return A(i, sh, dt, p.view)
                return A(i, sh, dt, (('unk', sh),))
            if i in self.b.heap or j in self.a.heap:
                return union([p, q])
            got = [k for k in self.pairs if k[0] == i or k[1] == j]
            if got and got != [(i, j)]:
                return union([p, q])
            if p.view == () and q.view == ():
                tx, ty = self.a.heap[i].term, self.b.heap[j].term
                self.pairs[(i, j)] = i
                n = HBuf(phi(tx, ty, sh), self.a.heap[i].owner, dt)
                n.own = self.out.uid
                self.out.heap[i] = n
                return A(i, sh, dt, ())
            return union([p, q])
        if isinstance(p, Tu) and isinstance(q, Tu) and len(p.items) == len(q.items):
            return Tu([self.val(x, y) for x, y in zip(p.items, q.items)])
        if isinstance(p, (C, N)) and isinstance(q, (C, N)):
            kp, kq = num_kind(p), num_kind(q)
            if kp and kq and kp == kq and kp not in ('NoneType', 'bool'):
                return N(kp, phi(scalar_term(p), scalar_term(q), ()), getattr(p, 'isnp', False) and getattr(q, 'isnp', False))
            if isinstance(p, N) and isinstance(q, N) and p.kind == q.kind:
                return N(p.kind, phi(p.term, q.term, ()), p.isnp and q.isnp)
            return union([p, q])
        return union([p, q])


def phi(a, b, sh):
    if a is b:
        return a
    return tm.mk('phi', (a, b), sh)


def num_kind(v):
    if isinstance(v, N):
        return v.kind
    if isinstance(v, C) and isinstance(v.v, (bool, int, float, complex)):
        return type(v.v).__name__
    return None


def scalar_term(v):
    if isinstance(v, N):
        return v.term
    return tm.const(v.v)


def join_shape(a, b):
    if a == b:
        return a
    if a is None or b is None or len(a) != len(b):
        return None
    out = []
    for x, y in zip(a, b):
        if x == y:
            out.append(x)
        else:
            (xl, xh), (yl, yh) = tm.ibounds(tm.dim_term(x)), tm.ibounds(tm.dim_term(y))
            lo = None if xl is None or yl is None else min(xl, yl)
            hi = None if xh is None or yh is None else max(xh, yh)
            out.append(tm.dimvar('d', lo or 0, hi))
    return tuple(out)


def join_dtype(a, b):
    if a == b:
        return a
    order = ['bool', 'int', 'float', 'complex']
    if a in order and b in order:
        return order[max(order.index(a), order.index(b))]
    return 'unk'


class Same:
    """do two states that stem from a common ancestor have the same contents"""

    def __init__(self, a, b, floor):
        self.a, self.b, self.bufs, self.floor = a, b, {}, floor

    def run(self):
        a, b = self.a, self.b
        if a.env != b.env or a.vague != b.vague or a.events != b.events or a.excs != b.excs:
            return False
        ids = [i for i in b.heap if dict.get(a.heap, i) is not dict.get(b.heap, i) and (i in a.heap)]
        if isinstance(b.heap, Heap):
            ids += [i for i in a.heap if not dict.__contains__(b.heap, i) and i in b.heap]
        if any(i > self.floor for i in ids):
            live = reachable(a) | reachable(b)
            ids = [i for i in ids if i <= self.floor or i in live]
        bufs = []
        for i in ids:
            x, y = a.heap[i], b.heap[i]
            if type(x) is not type(y):
                return False
            if isinstance(x, HBuf):
                bufs.append((x, y))
            elif isinstance(x, HEnv):
                if x.vars.keys() != y.vars.keys() or not all(self.val(v, y.vars[k]) for k, v in x.vars.items()):
                    return False
            elif isinstance(x, HList):
                if x.items is None or y.items is None or len(x.items) != len(y.items) or not all(map(self.val, x.items, y.items)):
                    return False
            elif isinstance(x, HInst):
                if x.cls is not y.cls or x.attrs.keys() != y.attrs.keys() or not all(self.val(v, y.attrs[k]) for k, v in x.attrs.items()):
                    return False
            else:
                return False
        return all(x.dtype == y.dtype and self.terms(x.term, y.term) for x, y in bufs)

    def terms(self, x, y):
        if x is y:
            return True
        if x is None or y is None or x.shape != y.shape or x.shape is None or not tm.conc(x.shape) or tm.nelem(x.shape) > 100:
            return False
        try:
            return tm.same(x, y) is True
        except Exception:
            return False

    def val(self, v, w):
        if v is w or type(v) is type(w) and not isinstance(v, (A, R, Tu, UV)) and v == w:
            return True
        if type(v) is not type(w):
            return False
        if isinstance(v, A):
            if v == w and v.buf in self.a.heap and v.buf in self.b.heap:
                return True
            if v.buf in self.b.heap or w.buf in self.a.heap or v.shape != w.shape or v.dtype != w.dtype or v.view != w.view:
                return False
            if self.bufs.setdefault(v.buf, w.buf) != w.buf or list(self.bufs.values()).count(w.buf) > 1:
                return False
            return self.terms(self.a.heap[v.buf].term, self.b.heap[w.buf].term)
        if isinstance(v, N):
            return v.kind == w.kind and self.terms(v.term, w.term)
        if isinstance(v, Tu):
            return len(v.items) == len(w.items) and all(map(self.val, v.items, w.items))
        if isinstance(v, R):
            return v.id == w.id
        return False


def reachable(s):
    """ids of the heap objects the variables of the current function lead to"""
    out, todo = set(), [s.env]
    while todo:
        v = todo.pop()
        if isinstance(v, int) and not isinstance(v, bool):
            if v in out:
                continue
            out.add(v)
            h = dict.get(s.heap, v)
            if h is None:
                continue
            if isinstance(h, HEnv):
                todo += list(h.vars.values()) + [h.parent]
            else:
                todo += [getattr(h, k) for k in h.__slots__ if k in ('items', 'elem', 'attrs')]
        elif isinstance(v, (C, N, tm.T)):
            continue
        elif isinstance(v, V):
            todo += [getattr(v, k) for k in v.__slots__ if k not in ('shape', 'dtype', 'view', 'node', 'mod', 'name', 'info', 'term')]
        elif isinstance(v, (tuple, list)):
            todo += v
        elif isinstance(v, dict):
            todo += v.values()
    return out


def coalesce(states, floor):
    """states that differ in their path conditions only become one"""
    out = []
    for s in states:
        for i, t in enumerate(out):
            if Same(t, s, floor).run():
                j = t.fork()
                j.assume = {k: v for k, v in t.assume.items() if k in s.assume and s.assume[k] == v}
                j.writes.update(s.writes)
                out[i] = j
                break
        else:
            out.append(s)
    return out


def join_states(a, b, va=None, vb=None):
    """join two states; when va/vb are given also join those values"""
    j = Joiner(a, b)
    out = j.run()
    if va is None:
        return out
    v = j.val(va, vb)
    return v, out


def desc(v, s, d=0):
    """coarse descriptor used to decide which partitions are merged first"""
    if isinstance(v, C):
        return ('C', type(v.v).__name__, v.v if isinstance(v.v, (bool, str, type(None), int)) else None)
    if isinstance(v, N):
        return ('N', v.kind)
    if isinstance(v, A):
        return ('A', None if v.shape is None else tuple(x if isinstance(x, int) else '?' for x in v.shape), v.dtype)
    if isinstance(v, Tu):
        return ('T',) + tuple(desc(x, s, d + 1) for x in v.items)
    if isinstance(v, R):
        h = s.heap.get(v.id)
        if isinstance(h, HInst):
            return ('I', h.cls.name) + (tuple((k, desc(x, s, d + 1)) for k, x in sorted(h.attrs.items())
                                              if not isinstance(x, R)) if d < 2 else ())
        if isinstance(h, HList):
            if h.items is None:
                return ('L', None)
            return ('L', len(h.items)) + (tuple(desc(x, s, d + 1) for x in h.items) if d < 3 else ())
        return (type(h).__name__,)
    return (type(v).__name__,)


def cdesc(x):
    """shape free version of a descriptor"""
    if isinstance(x, tuple):
        if x and x[0] == 'A':
            return ('A', None if x[1] is None else len(x[1]))
        return tuple(cdesc(y) for y in x)
    return x
