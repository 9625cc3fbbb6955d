"""Builtin functions, itertools, functools, copy, operator, warnings."""
import builtins as _bi
import math

from . import terms as tm
from .values import *
from . import ext
from .ext import (reg, one, num, seqitems, arrayify, NotNum, Unknown, dimval, todim, cbool, cmp_scalar, isinst, truthy,
                  eltwise1, merge_elems, aterm, as_cond, kind_of, from_term, getitem, eq_vals, need_arr)


def lenval(v, s):
    if isinstance(v, C) and isinstance(v.v, (str, bytes)):
        return C(len(v.v))
    it = seqitems(v, s)
    if it is not None:
        return C(len(it))
    if isinstance(v, A):
        if v.shape is None:
            return N('int', tm.dimvar('len'))
        if v.shape == ():
            return None
        return dimval(v.shape[0])
    if isinstance(v, R):
        h = s.heap.get(v.id)
        if isinstance(h, HList):
            return N('int', h.length) if not isinstance(tm.dim_of(h.length), int) else C(tm.dim_of(h.length))
        if isinstance(h, (HDict, HSet)):
            return C(len(h.items)) if not h.open_ else N('int', tm.dimvar('len'))
    if isinstance(v, N) and v.kind == 'str':
        return N('int', tm.dimvar('len'))
    if isinstance(v, (Top, XO)):
        return N('int', tm.dimvar('len'))
    return None


@reg('builtins.len')
def b_len(I, args, kw, s, n):
    v = args[0]
    h = I.inst(v, s)
    if h is not None:
        m = h.cls.find('__len__')
        if m is not None:
            return I.call(BM(v, m), [], {}, s, n)
        return one(I.err('TypeError', 'object of type %r has no len()' % h.cls.name, n), s)
    r = lenval(v, s)
    if r is None:
        return one(I.err('TypeError', 'object of type %s has no len()' % ext.type_name(I, v, s), n), s)
    return one(r, s)


@reg('builtins.isinstance')
def b_isinstance(I, args, kw, s, n):
    r = isinst(I, args[0], args[1], s)
    if r is None:
        return [(C(x), t) for x, t in I.vague_fork(s)]
    return one(C(r), s)


@reg('builtins.issubclass')
def b_issubclass(I, args, kw, s, n):
    a, b = args
    if isinstance(a, K):
        bs = b.items if isinstance(b, Tu) else [b]
        if all(isinstance(x, (K, X)) for x in bs):
            return one(C(any(isinstance(x, K) and x.cls in a.cls.mro() for x in bs)), s)
    return one(Top(), s)


@reg('builtins.callable')
def b_callable(I, args, kw, s, n):
    v = args[0]
    h = I.inst(v, s)
    if h is not None:
        return one(C(h.cls.find('__call__') is not None), s)
    if isinstance(v, Top):
        return one(Top(), s)
    return one(C(isinstance(v, (Fn, BM, K, X, BX, Partial, Static))), s)


@reg('builtins.type')
def b_type(I, args, kw, s, n):
    if len(args) != 1:
        return one(Top(), s)
    v = args[0]
    h = I.inst(v, s)
    if h is not None:
        return one(K(h.cls), s)
    if isinstance(v, A):
        return one(X('numpy.ndarray'), s)
    if isinstance(v, C):
        return one(X('builtins.' + type(v.v).__name__), s)
    if isinstance(v, N):
        if v.kind == 'num':
            return one(Top(), s)
        if v.isnp:
            return one(X('numpy.' + {'float': 'float64', 'int': 'int64', 'complex': 'complex128', 'bool': 'bool_'}.get(v.kind, v.kind)), s)
        return one(X('builtins.' + v.kind), s)
    if isinstance(v, (Tu, R)):
        return one(X('builtins.' + ext.type_name(I, v, s)), s)
    if isinstance(v, K):
        return one(X('builtins.type'), s)
    if isinstance(v, (Fn, BM)):
        return one(X('builtins.function'), s)
    return one(Top(), s)


@reg('builtins.print', 'warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings',
     'matplotlib.pyplot.setp', 'numpy.seterr', 'numpy.set_printoptions')
def b_print(I, args, kw, s, n):
    return one(NONE, s)


def _print(I, args, kw, s, n):
    s.event('print', I.where(n))
    return one(NONE, s)


ext.REG['builtins.print'] = _print


def _warn(I, args, kw, s, n):
    s.event('warn', I.where(n))
    return one(NONE, s)


ext.REG['warnings.warn'] = _warn


def _gstate(path):
    def f(I, args, kw, s, n):
        s.event('global-state', path, I.where(n))
        return one(NONE, s)
    return f


for _p in ('numpy.seterr', 'numpy.set_printoptions', 'matplotlib.rc', 'matplotlib.pyplot.rc', 'matplotlib.use',
           'matplotlib.pyplot.style.use', 'matplotlib.rcParams.update', 'matplotlib.pyplot.rcParams.update', 'random.seed',
           'numpy.random.seed', 'numpy.random.set_state', 'os.putenv', 'os.chdir', 'sys.setrecursionlimit', 'warnings.simplefilter',
           'warnings.filterwarnings', 'warnings.resetwarnings', 'matplotlib.rcdefaults'):
    ext.REG[_p] = _gstate(_p)


@reg('warnings.catch_warnings')
def b_cw(I, args, kw, s, n):
    return one(XO('catch_warnings_rec' if truthy(kw.get('record', FALSE)) else 'catch_warnings'), s)


@reg('numpy.errstate', 'numpy.printoptions')
def b_errstate(I, args, kw, s, n):
    return one(XO('errstate'), s)


@reg('contextlib.suppress')
def b_suppress(I, args, kw, s, n):
    names = []
    for a in args:
        names.append(a.path.split('.')[-1] if isinstance(a, X) else getattr(getattr(a, 'cls', None), 'name', 'Exception'))
    return one(XO('suppress', tuple(names)), s)


@reg('builtins.property')
def b_property(I, args, kw, s, n):
    a = list(args) + [None] * 3
    return one(Prop(kw.get('fget', a[0]), kw.get('fset', a[1]), kw.get('fdel', a[2])), s)


@reg('builtins.staticmethod')
def b_static(I, args, kw, s, n):
    return one(Static(args[0], 'static'), s)


@reg('builtins.classmethod')
def b_classm(I, args, kw, s, n):
    return one(Static(args[0], 'class'), s)


@reg('functools.wraps', 'functools.update_wrapper')
def b_wraps(I, args, kw, s, n):
    return one(X('absint.identity'), s)


@reg('absint.identity', 'functools.lru_cache.wrapped', 'functools.cache', 'functools.cached_property')
def b_identity(I, args, kw, s, n):
    return one(args[0], s)


@reg('functools.lru_cache')
def b_lru(I, args, kw, s, n):
    if args and isinstance(args[0], Fn):
        return one(args[0], s)
    return one(X('absint.identity'), s)


@reg('functools.partial')
def b_partial(I, args, kw, s, n):
    return one(Partial(args[0], tuple(args[1:]), tuple(sorted(kw.items(), key=lambda x: x[0]))), s)


@reg('functools.reduce')
def b_reduce(I, args, kw, s, n):
    out = []
    for items, t in I.iterate(args[1], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
            continue
        if not isinstance(items, list):
            out.append((Top(), t))
            continue
        items = list(items)
        if len(args) > 2:
            items = [args[2]] + items
        if not items:
            out.append((I.err('TypeError', 'reduce() of empty iterable with no initial value', n), t))
            continue
        cur = [(items[0], t)]
        for x in items[1:]:
            nxt = []
            for v, u in cur:
                if isinstance(v, Raise):
                    nxt.append((v, u))
                else:
                    nxt += I.call(args[0], [v, x], {}, u, n)
            cur = nxt
        out += cur
    return out


@reg('builtins.range')
def b_range(I, args, kw, s, n):
    try:
        d = [todim(a) for a in args]
    except NotNum as e:
        return one(I.err(e.exc, e.msg, n), s)
    except Unknown:
        return one(s.unk_list(N('int', tm.dimvar('i'))), s)
    if all(isinstance(x, int) for x in d):
        r = range(*d)
        if len(r) <= 600:
            return one(Tu([C(i) for i in r]), s)
        return one(s.unk_list(N('int', tm.dimvar('i', min(r[0], r[-1]), max(r[0], r[-1]))), tm.const(len(r))), s)
    lo = tm.const(0) if len(d) == 1 else tm.dim_term(d[0])
    hi = tm.dim_term(d[0] if len(d) == 1 else d[1])
    step = d[2] if len(d) == 3 else 1
    if step == 1:
        ln = tm.iadd(hi, lo, -1)
        l, h = tm.ibounds(ln)
        if l is None or l < 0:
            ln = tm.dimvar('len', 0, h)
        ll, _ = tm.ibounds(lo)
        _, hh = tm.ibounds(hi)
        return one(s.unk_list(N('int', tm.dimvar('i', ll, None if hh is None else hh - 1)), ln), s)
    return one(s.unk_list(N('int', tm.dimvar('i', None))), s)


def _iters(I, args, s, n):
    """iterate several values -> [(list of item lists | Raise, S)]"""
    cur = [([], s)]
    for a in args:
        nxt = []
        for acc, t in cur:
            if isinstance(acc, Raise):
                nxt.append((acc, t))
                continue
            for items, u in I.iterate(a, t, n):
                if isinstance(items, Raise):
                    nxt.append((items, u))
                else:
                    nxt.append((acc + [items], u))
        cur = nxt
    return cur


@reg('builtins.zip')
def b_zip(I, args, kw, s, n):
    out = []
    for acc, t in _iters(I, args, s, n):
        if isinstance(acc, Raise):
            out.append((acc, t))
        elif all(isinstance(x, list) for x in acc):
            if truthy(kw.get('strict', FALSE)) and len(set(len(x) for x in acc)) > 1:
                out.append((I.err('ValueError', 'zip() argument lengths differ', n), t))
            else:
                out.append((Tu([Tu(z) for z in zip(*acc)]), t))
        else:
            els, ln = [], None
            for x in acc:
                if isinstance(x, list):
                    els.append(merge_elems(x) if x else Top())
                    ln = tm.const(len(x)) if ln is None else ln
                else:
                    els.append(x[1])
                    ln = x[2] if ln is None and len(x) > 2 else ln
            # a finite list zipped with one unknown-length stream: if the
            # stream may be shorter, the number of pairs is unknown
            lists = [x for x in acc if isinstance(x, list)]
            unk = [x for x in acc if not isinstance(x, list)]
            known = [x for x in unk if len(x) > 2 and x[2] is not None]
            if lists and not known and all(I_inf(a, t) for a, x in zip(args, acc) if not isinstance(x, list)):
                m = min(len(x) for x in lists)
                rows = []
                for i in range(m):
                    rows.append(Tu([x[i] if isinstance(x, list) else nth(I, a, i, x, t) for a, x in zip(args, acc)]))
                out.append((Tu(rows), t))
                continue
            if any(isinstance(e, UV) for e in els):
                els = [Top() if isinstance(e, UV) else e for e in els]
            if lists:
                ln = tm.dimvar('zip', 0, min(len(x) for x in lists))
            elif len(known) != len(unk) or len({x[2] for x in known}) != 1:
                ln = None
            else:
                ln = known[0][2]
            out.append((t.unk_list(Tu(els), ln), t))
    return out


def I_inf(v, s):
    """streams that never end before the list they are zipped with"""
    return isinstance(v, XO) and v.tag in ('cycle', 'count', 'repeat')


def nth(I, a, i, x, s):
    """element i of a stream"""
    if a.tag == 'cycle' and a.term:
        v = a.term[i % len(a.term)]
        if isinstance(v, R) and isinstance(s.heap.get(v.id), HDict) and s.heap.get(v.id).open_:
            return s.new_dict([], True)
        return v
    if a.tag == 'count' and isinstance(a.term, tuple):
        return C(a.term[0] + i * a.term[1])
    return I.refresh(x[1], s)


@reg('itertools.cycle')
def it_cycle(I, args, kw, s, n):
    out = []
    for items, t in I.iterate(args[0], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
        elif isinstance(items, list):
            out.append((XO('cycle', tuple(items)) if items else Tu([]), t))
        else:
            out.append((XO('cycle', (items[1],)) if isinstance(items[1], R) else XO('cycle'), t))
    return out


@reg('itertools.count')
def it_count(I, args, kw, s, n):
    a, b = arg(args, kw, 0, 'start', C(0)), arg(args, kw, 1, 'step', C(1))
    if all(isinstance(x, C) and isinstance(x.v, (int, float)) for x in (a, b)):
        return one(XO('count', (a.v, b.v)), s)
    return one(XO('count'), s)


@reg('itertools.zip_longest')
def b_zipl(I, args, kw, s, n):
    import itertools
    out = []
    f = kw.get('fillvalue', NONE)
    for acc, t in _iters(I, args, s, n):
        if isinstance(acc, Raise):
            out.append((acc, t))
        elif all(isinstance(x, list) for x in acc):
            out.append((Tu([Tu(z) for z in itertools.zip_longest(*acc, fillvalue=f)]), t))
        else:
            out.append((t.unk_list(Top()), t))
    return out


@reg('itertools.product')
def it_product(I, args, kw, s, n):
    import itertools
    out = []
    rep = kw.get('repeat')
    for acc, t in _iters(I, args, s, n):
        if isinstance(acc, Raise):
            out.append((acc, t))
        elif all(isinstance(x, list) for x in acc) and (rep is None or isinstance(rep, C)):
            out.append((Tu([Tu(z) for z in itertools.product(*acc, repeat=rep.v if rep else 1)]), t))
        else:
            els = [(merge_elems(x) if x else Top()) if isinstance(x, list) else x[1] for x in acc]
            els = [Top() if isinstance(e, UV) else e for e in els]
            out.append((t.unk_list(Tu(els)), t))
    return out


@reg('itertools.chain')
def it_chain(I, args, kw, s, n):
    out = []
    for acc, t in _iters(I, args, s, n):
        if isinstance(acc, Raise):
            out.append((acc, t))
        elif all(isinstance(x, list) for x in acc):
            out.append((Tu([y for x in acc for y in x]), t))
        else:
            els = [(merge_elems(x) if x else None) if isinstance(x, list) else x[1] for x in acc]
            out.append((t.unk_list(merge_elems([e for e in els if e is not None])), t))
    return out


@reg('itertools.chain.from_iterable')
def it_chainf(I, args, kw, s, n):
    out = []
    for items, t in I.iterate(args[0], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
        elif isinstance(items, list):
            out += it_chain(I, items, {}, t, n)
        else:
            el = items[1]
            if isinstance(el, UV):
                out.append((t.unk_list(Top()), t))
                continue
            for it2, u in I.iterate(el, t, n):
                if isinstance(it2, Raise):
                    out.append((it2, u))
                elif isinstance(it2, list):
                    out.append((u.unk_list(merge_elems(it2)), u))
                else:
                    out.append((u.unk_list(it2[1]), u))
    return out


@reg('builtins.enumerate')
def b_enumerate(I, args, kw, s, n):
    st = args[1] if len(args) > 1 else kw.get('start', C(0))
    out = []
    for items, t in I.iterate(args[0], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
        elif isinstance(items, list) and isinstance(st, C):
            out.append((Tu([Tu([C(i + st.v), x]) for i, x in enumerate(items)]), t))
        else:
            e = (merge_elems(items) if items else Top()) if isinstance(items, list) else items[1]
            ln = tm.const(len(items)) if isinstance(items, list) else items[2]
            if isinstance(e, UV):
                e = Top()
            out.append((t.unk_list(Tu([N('int', tm.dimvar('i')), e]), ln), t))
    return out


@reg('builtins.reversed')
def b_reversed(I, args, kw, s, n):
    out = []
    for items, t in I.iterate(args[0], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
        elif isinstance(items, list):
            out.append((Tu(items[::-1]), t))
        else:
            out.append((t.unk_list(items[1], items[2]), t))
    return out


def _mapcall(I, f, rows, s, n):
    cur = [([], s)]
    for row in rows:
        nxt = []
        for acc, t in cur:
            if isinstance(acc, Raise):
                nxt.append((acc, t))
                continue
            for v, u in I.call(f, list(row), {}, t, n):
                nxt.append((v if isinstance(v, Raise) else acc + [v], u))
        cur = nxt
    return cur


@reg('builtins.map', 'itertools.starmap')
def b_map(I, args, kw, s, n):
    out = []
    for acc, t in _iters(I, args[1:], s, n):
        if isinstance(acc, Raise):
            out.append((acc, t))
        elif all(isinstance(x, list) for x in acc):
            for vs, u in _mapcall(I, args[0], list(zip(*acc)), t, n):
                out.append((vs if isinstance(vs, Raise) else Tu(vs), u))
        else:
            els = [(merge_elems(x) if x else Top()) if isinstance(x, list) else x[1] for x in acc]
            ln = next((x[2] for x in acc if not isinstance(x, list)), None)
            for v, u in I.call(args[0], els, {}, t, n):
                out.append((v if isinstance(v, Raise) else u.unk_list(v, ln), u))
    return out


@reg('builtins.filter')
def b_filter(I, args, kw, s, n):
    out = []
    for items, t in I.iterate(args[1], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
            continue
        if not isinstance(items, list):
            out.append((t.unk_list(items[1]), t))
            continue
        cur = [([], t)]
        for x in items:
            nxt = []
            for acc, u in cur:
                if isinstance(acc, Raise):
                    nxt.append((acc, u))
                    continue
                vs = [(x, u)] if isinstance(args[0], C) else I.call(args[0], [x], {}, u, n)
                for v, w in vs:
                    if isinstance(v, Raise):
                        nxt.append((v, w))
                        continue
                    for b, z in I.truth(v, w, n):
                        nxt.append((b if isinstance(b, Raise) else acc + [x] if b else acc, z))
            cur = nxt
        out += [(a if isinstance(a, Raise) else Tu(a), u) for a, u in cur]
    return out


@reg('builtins.iter')
def b_iter(I, args, kw, s, n):
    out = []
    for items, t in I.iterate(args[0], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
        elif isinstance(items, list):
            out.append((t.new_list(items), t))
        else:
            out.append((t.unk_list(items[1], items[2]), t))
    return out


@reg('builtins.next')
def b_next(I, args, kw, s, n):
    v = args[0]
    if isinstance(v, Tu):
        if v.items:
            return one(v.items[0], s)
        if len(args) > 1:
            return one(args[1], s)
        return one(I.err('StopIteration', '', n), s)
    if isinstance(v, R) and isinstance(s.heap.get(v.id), HList):
        h = s.mut(v.id)
        if h.items is not None:
            if h.items:
                return one(h.items.pop(0), s)
            if len(args) > 1:
                return one(args[1], s)
            return one(I.err('StopIteration', '', n), s)
        e = I.refresh(h.elem, s)
        out = [(e if not isinstance(e, UV) else Top(), s)]
        if len(args) > 1:
            t = s.fork()
            t.vague += 1
            out.append((args[1], t))
        return out
    if isinstance(v, XO) and v.tag in ('cycle', 'count'):
        return one(Top(), s)
    return one(Top(), s)


def _seqbuild(mk_):
    def f(I, args, kw, s, n):
        if not args:
            return one(mk_(s, []), s)
        out = []
        for items, t in I.iterate(args[0], s, n):
            if isinstance(items, Raise):
                out.append((items, t))
            elif isinstance(items, list):
                out.append((mk_(t, items), t))
            else:
                out.append((t.unk_list(items[1] if items else Top(), items[2] if items else None), t))
        return out
    return f


reg('builtins.list')(_seqbuild(lambda s, it: s.new_list(it)))
reg('builtins.tuple')(_seqbuild(lambda s, it: Tu(it)))


@reg('builtins.set', 'builtins.frozenset')
def b_set(I, args, kw, s, n):
    if not args:
        return one(R(s.alloc(HSet([]))), s)
    out = []
    for items, t in I.iterate(args[0], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
        elif isinstance(items, list) and all(isinstance(x, (C, R, Tu, X, K)) for x in items):
            uniq = []
            for x in items:
                if x not in uniq:
                    uniq.append(x)
            out.append((R(t.alloc(HSet(uniq))), t))
        else:
            out.append((R(t.alloc(HSet([], True))), t))
    return out


@reg('builtins.dict', 'collections.OrderedDict')
def b_dict(I, args, kw, s, n):
    d = s.new_dict([])
    h = s.get(d.id)
    if args:
        g = s.heap.get(args[0].id) if isinstance(args[0], R) else None
        if isinstance(g, HDict):
            h.items.update(g.items)
            h.open_ = g.open_
        else:
            it = seqitems(args[0], s)
            if it is None:
                h.open_ = True
            for p in it or []:
                pi = seqitems(p, s)
                if pi is not None and len(pi) == 2:
                    h.items[dkey(pi[0])] = (pi[0], pi[1])
                else:
                    h.open_ = True
    for k, v in kw.items():
        if k == '**':
            h.open_ = True
        else:
            h.items[dkey(C(k))] = (C(k), v)
    return one(d, s)


@reg('builtins.dict.fromkeys')
def b_fromkeys(I, args, kw, s, n):
    it = seqitems(args[0], s)
    v = args[1] if len(args) > 1 else NONE
    if it is None:
        return one(s.new_dict([], True), s)
    return one(s.new_dict([(k, v) for k in it]), s)


@reg('builtins.slice')
def b_slice(I, args, kw, s, n):
    a = list(args)
    if len(a) == 1:
        return one(SL(NONE, a[0], NONE), s)
    return one(SL(a[0], a[1], a[2] if len(a) > 2 else NONE), s)


@reg('builtins.bool')
def b_bool(I, args, kw, s, n):
    if not args:
        return one(FALSE, s)
    v = args[0]
    if isinstance(v, N) and v.kind != 'str':
        return one(cbool(as_cond(v)), s)
    return [(b if isinstance(b, Raise) else C(b), t) for b, t in I.truth(v, s, n)]


def _scalarize(I, v, s, n, name):
    """value for float()/int()/complex(): (value) or Raise"""
    if isinstance(v, A):
        if v.shape is None or not tm.conc(v.shape):
            return N('num', tm.fresh(name))
        if tm.nelem(v.shape) != 1:
            return I.err('TypeError', 'only length-1 arrays can be converted to Python scalars', n)
        return N(v.dtype if v.dtype in ext.ORDER else 'num', tm.entries(aterm(v, s))[0])
    return v


@reg('builtins.float')
def b_float(I, args, kw, s, n):
    if not args:
        return one(C(0.), s)
    v = _scalarize(I, args[0], s, n, 'float')
    if isinstance(v, Raise):
        return one(v, s)
    if isinstance(v, C):
        try:
            return one(C(float(v.v)), s)
        except Exception as e:
            return one(I.err(type(e).__name__, str(e), n), s)
    if isinstance(v, N):
        if v.kind == 'str':
            return [(N('float', tm.fresh('f')), s)] + I.mayraise('ValueError', 'could not convert string to float', n, s)
        if v.kind == 'complex':
            if v.isnp:
                return one(N('float', eltwise1('real', v.term)), s)
            return one(I.err('TypeError', "float() argument must be a string or a real number, not 'complex'", n), s)
        return one(N('float', v.term), s)
    if isinstance(v, Top):
        return [(N('float', tm.fresh('f')), s)] + I.mayraise('TypeError', 'float()', n, s)
    return one(I.err('TypeError', 'float() argument must be a string or a real number, not %s' % ext.type_name(I, v, s), n), s)


@reg('builtins.int', 'numpy.int64', 'numpy.int32', 'numpy.intp', 'numpy.int_', 'math.trunc')
def b_int(I, args, kw, s, n):
    if not args:
        return one(C(0), s)
    v = _scalarize(I, args[0], s, n, 'int')
    if isinstance(v, Raise):
        return one(v, s)
    if isinstance(v, C):
        try:
            return one(C(int(v.v)), s)
        except Exception as e:
            return one(I.err(type(e).__name__, str(e), n), s)
    if isinstance(v, N):
        if v.kind in ('int', 'bool'):
            return one(N('int', v.term), s)
        if v.kind == 'complex':
            return one(I.err('TypeError', "int() argument must be a real number, not 'complex'", n), s)
        t = tm.uf('int', (v.term,), ())
        sg = tm.sign(v.term)
        if sg in ('+', '>=0'):
            tm.BOUNDS.setdefault(t, (0, None))
        else:
            tm.BOUNDS.setdefault(t, (None, None))
        return one(N('int', t), s)
    if isinstance(v, Top):
        return one(N('int', tm.dimvar('int', None)), s)
    return one(I.err('TypeError', 'int() argument must be a string or a number, not %s' % ext.type_name(I, v, s), n), s)


def _mround(fn):
    def f(I, args, kw, s, n):
        v = _scalarize(I, args[0], s, n, fn)
        if isinstance(v, Raise):
            return one(v, s)
        if isinstance(v, C):
            try:
                return one(C(getattr(math, fn)(v.v)), s)
            except Exception as e:
                return one(I.err(type(e).__name__, str(e), n), s)
        if isinstance(v, N) and v.kind in ('int', 'bool'):
            return one(v, s)
        if isinstance(v, N):
            t = tm.uf('int', (tm.uf(fn, (v.term,), ()),), ())
            tm.BOUNDS.setdefault(t, (0 if tm.sign(v.term) in ('+', '>=0') else None, None))
            return one(N('int', t), s)
        return one(Top(), s)
    return f


ext.REG['math.floor'] = _mround('floor')
ext.REG['math.ceil'] = _mround('ceil')


@reg('builtins.complex')
def b_complex(I, args, kw, s, n):
    if all(isinstance(a, C) for a in args):
        try:
            return one(C(complex(*[a.v for a in args])), s)
        except Exception as e:
            return one(I.err(type(e).__name__, str(e), n), s)
    v = _scalarize(I, args[0], s, n, 'complex')
    if isinstance(v, Raise):
        return one(v, s)
    if len(args) == 2:
        a, b = num(v, s), num(args[1], s)
        if a and b:
            return one(N('complex', tm.arith('add', a[0], tm.arith('mul', tm.const(1j), b[0]))), s)
    if isinstance(v, N) and v.kind != 'str':
        return one(N('complex', v.term), s)
    return one(N('complex', tm.fresh('c')), s)


@reg('builtins.str', 'builtins.repr', 'builtins.format', 'builtins.ascii')
def b_str(I, args, kw, s, n):
    if args and isinstance(args[0], C) and len(args) == 1:
        return one(C(str(args[0].v)), s)
    if args and isinstance(args[0], N) and args[0].kind == 'str':
        return one(args[0], s)
    return one(N('str', tm.fresh('str')), s)


@reg('builtins.abs', 'math.fabs')
def b_abs(I, args, kw, s, n):
    v = args[0]
    if isinstance(v, C):
        try:
            return one(C(abs(v.v)), s)
        except TypeError as e:
            return one(I.err('TypeError', str(e), n), s)
    h = I.inst(v, s)
    if h is not None:
        m = h.cls.find('__abs__')
        if m is None:
            return one(I.err('TypeError', 'bad operand type for abs()', n), s)
        return I.call(BM(v, m), [], {}, s, n)
    r = num(v, s)
    if r is None:
        return one(Top() if isinstance(v, Top) else I.err('TypeError', 'bad operand type for abs()', n), s)
    t, sh, k = r
    return one(from_term(eltwise1('abs', t), 'float' if k == 'complex' else k, s, sh) if isinstance(v, A)
               else N('float' if k == 'complex' else k, eltwise1('abs', t), v.isnp), s)


@reg('builtins.round')
def b_round(I, args, kw, s, n):
    v = args[0]
    if all(isinstance(a, C) for a in args):
        try:
            return one(C(round(*[a.v for a in args])), s)
        except Exception as e:
            return one(I.err(type(e).__name__, str(e), n), s)
    if isinstance(v, N):
        if v.kind in ('int', 'bool'):
            return one(v, s)
        return one(N('int' if len(args) == 1 else 'float', tm.uf('round', (v.term,), ())), s)
    return one(Top(), s)


@reg('builtins.divmod')
def b_divmod(I, args, kw, s, n):
    out = []
    for a, t in I.binop('floordiv', args[0], args[1], s, n):
        if isinstance(a, Raise):
            out.append((a, t))
            continue
        for b, u in I.binop('mod', args[0], args[1], t, n):
            out.append((b if isinstance(b, Raise) else Tu([a, b]), u))
    return out


@reg('builtins.pow', 'math.pow', 'operator.pow')
def b_pow(I, args, kw, s, n):
    return I.binop('pow', args[0], args[1], s, n)


for _n, _o in {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'truediv': 'div', 'matmul': 'matmul', 'floordiv': 'floordiv', 'mod': 'mod',
               'and_': 'and', 'or_': 'or', 'xor': 'xor'}.items():
    ext.REG['operator.' + _n] = (lambda o: lambda I, args, kw, s, n: I.binop(o, args[0], args[1], s, n))(_o)
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    ext.REG['operator.' + _n] = (lambda o: lambda I, args, kw, s, n: I.compare(o, args[0], args[1], s, n))(_n)
ext.REG['operator.is_'] = lambda I, args, kw, s, n: I.compare('is', args[0], args[1], s, n)
ext.REG['operator.is_not'] = lambda I, args, kw, s, n: I.compare('isnot', args[0], args[1], s, n)
ext.REG['operator.neg'] = lambda I, args, kw, s, n: I.unary('neg', args[0], s, n)
ext.REG['operator.getitem'] = lambda I, args, kw, s, n: I.getitem_(args[0], args[1], s, n)
ext.REG['operator.contains'] = lambda I, args, kw, s, n: I.compare('in', args[1], args[0], s, n)


@reg('operator.attrgetter')
def op_attrgetter(I, args, kw, s, n):
    return one(Partial(X('absint.attrget'), (args[0],), ()), s)


@reg('absint.attrget')
def op_attrget(I, args, kw, s, n):
    return I.getattr_(args[1], args[0].v, s, n) if isinstance(args[0], C) else one(Top(), s)


@reg('operator.itemgetter')
def op_itemgetter(I, args, kw, s, n):
    return one(Partial(X('absint.itemget'), (args[0],), ()), s)


@reg('absint.itemget')
def op_itemget(I, args, kw, s, n):
    return I.getitem_(args[1], args[0], s, n)


@reg('operator.not_')
def op_not(I, args, kw, s, n):
    return [(b if isinstance(b, Raise) else C(not b), t) for b, t in I.truth(args[0], s, n)]


@reg('builtins.sum', 'math.fsum')
def b_sum(I, args, kw, s, n):
    start = args[1] if len(args) > 1 else kw.get('start', C(0))
    out = []
    for items, t in I.iterate(args[0], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
        elif isinstance(items, list):
            cur = [(start, t)]
            for x in items:
                nxt = []
                for v, u in cur:
                    nxt += [(v, u)] if isinstance(v, Raise) else I.binop('add', v, x, u, n)
                cur = nxt
            out += cur
        else:
            e = items[1]
            k = kind_of(e) if not isinstance(e, A) else None
            if k in ('int', 'bool'):
                out.append((N('int', tm.dimvar('sum', None)), t))
            elif k:
                out.append((N(k, tm.fresh('sum')), t))
            else:
                out.append((Top(), t))
    return out


def _minmax(which):
    def f(I, args, kw, s, n):
        if len(args) == 1:
            its = I.iterate(args[0], s, n)
        else:
            its = [(list(args), s)]
        out = []
        for items, t in its:
            if isinstance(items, Raise):
                out.append((items, t))
                continue
            if not isinstance(items, list):
                e = items[1]
                out.append((N(kind_of(e), tm.fresh(which)) if kind_of(e) and not isinstance(e, A) else Top(), t))
                continue
            if not items:
                if 'default' in kw:
                    out.append((kw['default'], t))
                else:
                    out.append((I.err('ValueError', '%s() arg is an empty sequence' % which, n), t))
                continue
            out.append((minmax(which, items, kw, t), t))
        return out
    return f


def minmax(which, items, kw, t):
    if 'key' in kw:
        return items[0] if len(items) == 1 else union(items)
    if all(isinstance(x, C) for x in items):
        try:
            return C(getattr(_bi, which)([x.v for x in items]))
        except Exception:
            return Top()
    rs = [num(x, t) for x in items]
    if any(r is None or r[1] != () for r in rs):
        return Top()
    keep = []
    for r in rs:
        # drop those dominated
        if r[0] in [q[0] for q in keep]:
            continue
        keep.append(r)
    dom = []
    for i, r in enumerate(keep):
        d = False
        for j, q in enumerate(keep):
            if i != j:
                c = cmp_scalar('lt' if which == 'max' else 'gt', r[0], q[0])
                if c is True or (c is not True and cmp_scalar('le' if which == 'max' else 'ge', r[0], q[0]) is True and j < i):
                    d = True
        if not d:
            dom.append(r)
    keep = dom or keep
    k = keep[0][2]
    for r in keep[1:]:
        k = ext.jk(k, r[2])
    if len(keep) == 1:
        return N(k, keep[0][0])
    tt = tm.uf(which, tuple(sorted((r[0] for r in keep), key=lambda x: x.id)), ())
    if k in ('int', 'bool') and tt not in tm.BOUNDS:
        bs = [tm.ibounds(r[0]) for r in keep]
        los, his = [b[0] for b in bs], [b[1] for b in bs]
        if which == 'max':
            lo = max([x for x in los if x is not None], default=None)
            hi = None if any(x is None for x in his) else max(his)
        else:
            hi = min([x for x in his if x is not None], default=None)
            lo = None if any(x is None for x in los) else min(los)
        tm.BOUNDS[tt] = (lo, hi)
    return N(k, tt)


ext.REG['builtins.max'] = _minmax('max')
ext.REG['builtins.min'] = _minmax('min')


@reg('builtins.sorted')
def b_sorted(I, args, kw, s, n):
    out = []
    for items, t in I.iterate(args[0], s, n):
        if isinstance(items, Raise):
            out.append((items, t))
        elif isinstance(items, list):
            out.append((t.new_list(ext.sort_items(I, items, kw)), t))
        else:
            out.append((t.unk_list(items[1], items[2]), t))
    return out


def _anyall(which):
    def f(I, args, kw, s, n):
        out = []
        for items, t in I.iterate(args[0], s, n):
            if isinstance(items, Raise):
                out.append((items, t))
                continue
            if not isinstance(items, list):
                e = items[1]
                # all elements share one truth value or it is unknown
                for b, u in (I.truth(e, t, n) if not isinstance(e, (UV, Top)) else I.vague_fork(t)):
                    out.append((b if isinstance(b, Raise) else C(b), u))
                continue
            conds = []
            ok = True
            for x in items:
                if isinstance(x, C):
                    conds.append(bool(x.v))
                elif isinstance(x, N):
                    conds.append(as_cond(x))
                else:
                    ok = False
            if ok:
                out.append((cbool((ext.disj if which == 'any' else ext.conj)(conds)), t))
                continue
            cur = [t]
            for x in items:
                nxt = []
                for u in cur:
                    for b, w in I.truth(x, u, n):
                        if isinstance(b, Raise):
                            out.append((b, w))
                        elif b == (which == 'any'):
                            out.append((C(b), w))
                        else:
                            nxt.append(w)
                cur = nxt
            out += [(C(which == 'all'), u) for u in cur]
        return out
    return f


ext.REG['builtins.any'] = _anyall('any')
ext.REG['builtins.all'] = _anyall('all')


@reg('builtins.getattr')
def b_getattr(I, args, kw, s, n):
    if not isinstance(args[1], C):
        return one(Top(), s)
    out = []
    for v, t in I.getattr_(args[0], args[1].v, s, n):
        if isinstance(v, Raise) and v.exc == 'AttributeError' and len(args) > 2:
            out.append((args[2], t))
        else:
            out.append((v, t))
    return out


@reg('builtins.hasattr')
def b_hasattr(I, args, kw, s, n):
    if not isinstance(args[1], C) or isinstance(args[0], Top):
        return [(C(x), t) for x, t in I.vague_fork(s)]
    out = []
    for v, t in I.getattr_(args[0], args[1].v, s, n):
        if isinstance(v, Raise):
            out.append((FALSE if v.exc == 'AttributeError' else v, t))
        else:
            out.append((TRUE, t))
    return out


@reg('builtins.setattr')
def b_setattr(I, args, kw, s, n):
    if not isinstance(args[1], C):
        s.vague += 1
        return one(NONE, s)
    return [(r if isinstance(r, Raise) else NONE, t) for r, t in I.setattr_(args[0], args[1].v, args[2], s, n)]


@reg('builtins.delattr')
def b_delattr(I, args, kw, s, n):
    h = I.inst(args[0], s)
    if h is not None and isinstance(args[1], C):
        h = s.mut(args[0].id)
        h.attrs.pop(args[1].v, None)
        I.note_write(args[0], s, n)
    return one(NONE, s)


@reg('builtins.vars')
def b_vars(I, args, kw, s, n):
    h = I.inst(args[0], s) if args else None
    if h is not None:
        return one(s.new_dict([(C(k), v) for k, v in h.attrs.items()]), s)
    return one(s.new_dict([], True), s)


@reg('builtins.id', 'builtins.hash')
def b_id(I, args, kw, s, n):
    return one(N('int', tm.dimvar('id')), s)


@reg('builtins.object')
def b_object(I, args, kw, s, n):
    return one(XO('object%d' % new_id()), s)


@reg('builtins.open')
def b_open(I, args, kw, s, n):
    s.event('ext-call', 'builtins.open', I.where(n))
    return one(XO('file'), s)


@reg('builtins.super')
def b_super(I, args, kw, s, n):
    if len(args) == 2 and isinstance(args[0], K):
        return one(Super(args[1], args[0].cls), s)
    return one(Top(), s)


# ------------------------------------------------------------------- copy
def deepcopy(I, v, s, memo):
    if isinstance(v, A):
        k = ('A', v.buf)
        if k not in memo:
            h = s.get(v.buf)
            memo[k] = s.alloc(HBuf(h.term, None, h.dtype))
        return A(memo[k], v.shape, v.dtype, v.view)
    if isinstance(v, Tu):
        return Tu([deepcopy(I, x, s, memo) for x in v.items])
    if isinstance(v, UV):
        return UV(tuple(deepcopy(I, x, s, memo) if x is not UNDEF else x for x in v.alts))
    if isinstance(v, R):
        if v.id in memo:
            return memo[v.id]
        h = s.get(v.id)
        c = h.copy()
        if hasattr(c, 'owner'):
            c.owner = None
        r = R(s.alloc(c))
        memo[v.id] = r
        if isinstance(c, HList):
            if c.items is not None:
                c.items = [deepcopy(I, x, s, memo) for x in c.items]
            elif c.elem is not None:
                c.elem = deepcopy(I, c.elem, s, memo)
        elif isinstance(c, HDict):
            c.items = {k: (kk, deepcopy(I, vv, s, memo)) for k, (kk, vv) in c.items.items()}
        elif isinstance(c, HInst):
            c.attrs = {k: deepcopy(I, x, s, memo) for k, x in c.attrs.items()}
        return r
    return v


@reg('copy.deepcopy')
def c_deepcopy(I, args, kw, s, n):
    h = I.inst(args[0], s)
    if h is not None:
        m = h.cls.find('__deepcopy__')
        if m is not None:
            return I.call(BM(args[0], m), [s.new_dict([])], {}, s, n)
    return one(deepcopy(I, args[0], s, {}), s)


@reg('copy.copy')
def c_copy(I, args, kw, s, n):
    v = args[0]
    if isinstance(v, A):
        return one(s.new_arr(aterm(v, s), v.dtype, v.shape), s)
    if isinstance(v, R):
        h = I.inst(v, s)
        if h is not None:
            m = h.cls.find('__copy__')
            if m is not None:
                return I.call(BM(v, m), [], {}, s, n)
        c = s.get(v.id).copy()
        if hasattr(c, 'owner'):
            c.owner = None
        return one(R(s.alloc(c)), s)
    return one(v, s)


# ------------------------------------------------------------------- math
def _math(name, kind='float'):
    def f(I, args, kw, s, n):
        v = args[0]
        if isinstance(v, C):
            if name in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan'):
                t = eltwise1(name, tm.const(v.v))
                return one(N(kind, t), s)
            try:
                return one(C(getattr(math, name)(*[a.v for a in args])), s)
            except Exception:
                return one(N(kind, tm.fresh(name)), s)
        v = _scalarize(I, v, s, n, name)
        if isinstance(v, Raise):
            return one(v, s)
        if isinstance(v, N) and len(args) == 1:
            return one(N(kind, eltwise1(name, v.term)), s)
        return one(N(kind, tm.fresh(name)), s)
    return f


for _n in ('sqrt', 'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'atan', 'atan2', 'asin', 'acos', 'sinh', 'cosh', 'tanh', 'hypot',
           'degrees', 'radians'):
    ext.REG['math.' + _n] = _math(_n)
for _n in ('isinf', 'isnan', 'isfinite', 'isclose'):
    ext.REG['math.' + _n] = (lambda m: lambda I, args, kw, s, n: one(
        C(getattr(math, m)(*[a.v for a in args])) if all(isinstance(a, C) for a in args)
        else N('bool', tm.uf('cond', (m,) + tuple(num(a, s)[0] for a in args if num(a, s)), ())), s))(_n)
def _isfinite1(m, val):
    old = ext.REG['math.' + m]

    def f(I, args, kw, s, n):
        if len(args) == 1 and isinstance(args[0], N) and args[0].term.op in ('leaf', 'lin'):
            return one(C(val), s)
        return old(I, args, kw, s, n)
    ext.REG['math.' + m] = f


_isfinite1('isinf', False)
_isfinite1('isnan', False)
_isfinite1('isfinite', True)


@reg('math.prod')
def m_prod(I, args, kw, s, n):
    return b_reduce(I, [X('operator.mul'), args[0], C(1)], {}, s, n)


@reg('math.gcd', 'math.comb', 'math.factorial')
def m_int(I, args, kw, s, n):
    return one(N('int', tm.dimvar('m')), s)


@reg('tabulate.tabulate')
def x_tab(I, args, kw, s, n):
    return one(N('str', tm.fresh('tab')), s)


@reg('string.ascii_lowercase')
def x_asc(I, args, kw, s, n):
    return one(Top(), s)


@reg('collections.namedtuple')
def c_namedtuple(I, args, kw, s, n):
    return one(Top(), s)


@reg('textwrap.dedent')
def x_dedent(I, args, kw, s, n):
    return one(N('str', tm.fresh('str')), s)
