"""Disjunctive abstract interpreter for the Python subset the package uses.

The interpreter walks the AST.  A program point carries a bounded set of
abstract states (trace partitions); beyond the bound partitions are joined.
Nothing of the analysed package is imported or run.
"""
import ast
import builtins as _bi
import os
import sys

from . import terms as tm
from .values import *

sys.setrecursionlimit(20000)

UNROLL = 3          # iterations unrolled of a known loop longer than LONG
LONG = 32
CAP = 24            # partitions kept per program point
STEP_LIMIT = 400000


class Limit(Exception):
    """analysis budget exhausted: the instance is undecided"""


class Broken(Exception):
    """the analysis cannot find something it must find"""


EXC_BASES = {'LinAlgError': ('ValueError', 'Exception', 'BaseException'),
             'LinAlgWarning': ('RuntimeWarning', 'Warning', 'Exception', 'BaseException'),
             'UFuncTypeError': ('TypeError', 'Exception', 'BaseException'),
             'AxisError': ('ValueError', 'IndexError', 'Exception', 'BaseException')}


def exc_isa(name, base):
    if name == base:
        return True
    if name in EXC_BASES:
        return base in EXC_BASES[name]
    c = getattr(_bi, name, None)
    b = getattr(_bi, base, None)
    if isinstance(c, type) and isinstance(b, type):
        return issubclass(c, b)
    return base in ('Exception', 'BaseException')


class FnInfo:
    """static facts about a function body"""

    def __init__(self, node):
        self.globals_, self.nonlocals, names = set(), set(), set()
        self.gen = False
        self.closures = any(isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.GeneratorExp))
                            for b in (node.body if isinstance(node.body, list) else [node.body]) for n in ast.walk(b))
        body = node.body if isinstance(node.body, list) else [node.body]
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                stack.extend(n.decorator_list)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                # first iterator is evaluated here, targets are local to it
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        names.add(x.target.id)
                continue
            if isinstance(n, ast.Global):
                self.globals_.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.gen = True
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                names.add(n.name)
            stack.extend(ast.iter_child_nodes(n))
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        self.locals = frozenset(names - self.globals_ - self.nonlocals)


BINOPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.MatMult: 'matmul',
          ast.Pow: 'pow', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.BitAnd: 'and', ast.BitOr: 'or',
          ast.BitXor: 'xor', ast.LShift: 'lshift', ast.RShift: 'rshift'}
DUNDER = {'add': '__add__', 'sub': '__sub__', 'mul': '__mul__', 'div': '__truediv__', 'matmul': '__matmul__',
          'pow': '__pow__', 'floordiv': '__floordiv__', 'mod': '__mod__', 'and': '__and__', 'or': '__or__',
          'xor': '__xor__', 'lshift': '__lshift__', 'rshift': '__rshift__'}
RDUNDER = {k: '__r' + v[2:] for k, v in DUNDER.items()}
IDUNDER = {k: '__i' + v[2:] for k, v in DUNDER.items()}
CMPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge',
        ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in', ast.NotIn: 'notin'}
CDUNDER = {'eq': '__eq__', 'ne': '__ne__', 'lt': '__lt__', 'le': '__le__', 'gt': '__gt__', 'ge': '__ge__'}
CSWAP = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}


class Interp:
    def __init__(self, root='/repo', package='harold'):
        self.root, self.package = root, package
        self.mods = {}           # name -> env id
        self.trees = {}
        self.S0 = S()
        self.fninfo = {}
        self.handlers = []       # stack of handler type-name tuples
        self.fnstack = []
        self.floors = [0]        # objects allocated before the call of each active function
        self.steps = 0
        self.limit = STEP_LIMIT
        self.summaries = {}
        self.model_errors = {}
        self.depth = 0
        self.visited = set()     # (file, function) bodies interpreted
        self.unknown_ext = {}    # unmodelled external -> count
        self.maskfork = 0        # masks with at most that many undecided entries are split into cases
        self.eqbudget = 3        # data equalities split per path before the generic case is taken
        self.general = False     # ranks and zero tests are settled for data in general position
        self.factors = {}        # factorizations fixed in advance, see splib.la_schur
        self.generic_taken = 0
        self.forks = 0
        self.cap = CAP
        self.merge = 2           # that many partitions are compared for equal contents
        from . import ext
        self.ext = ext
        self.trace_calls = None

    # ---------------------------------------------------------- program
    def modfile(self, name):
        parts = name.split('.')
        p = os.path.join(self.root, *parts)
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def is_internal(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def load(self, name, st=None):
        """interpret a module of the package once; returns its env id"""
        if name in self.mods:
            return self.mods[name]
        f = self.modfile(name)
        if f is None:
            raise Broken('module %s not found' % name)
        with open(f, encoding='utf-8-sig') as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        self.trees[name] = tree
        st = self.S0
        env = st.alloc(HEnv({'__name__': C(name), '__file__': C(f)}, None, frozenset(), name))
        self.mods[name] = env
        saved = st.env
        st.env = env
        outs = self.block(tree.body, [st])
        norm, others = outs
        bad = [o for o in others if o[0] == 'raise']
        if not norm:
            raise Broken('module %s does not load: %s' % (name, bad[:1]))
        self.S0 = norm[0]
        self.S0.env = saved
        return env

    def load_all(self):
        d = os.path.join(self.root, self.package)
        if not os.path.isdir(d):
            raise Broken('package directory %s not found' % d)
        self.load(self.package)
        for f in sorted(os.listdir(d)):
            if f.endswith('.py') and f != '__init__.py':
                self.load(self.package + '.' + f[:-3])
        return self

    def public(self, name):
        env = self.S0.get(self.mods[self.package])
        v = env.vars.get(name)
        if v is None:
            raise Broken('public name %s not found in %s' % (name, self.package))
        return v

    def modname(self, st):
        return st.get(st.env).mod

    def where(self, node, st=None):
        fn = self.fnstack[-1] if self.fnstack else None
        name = fn.name if fn else '<module>'
        mod = fn.mod if fn else '?'
        return (mod, name, getattr(node, 'lineno', 0))

    # ---------------------------------------------------------- raising
    def err(self, exc, msg, node=None, explicit=False, val=None):
        fn = self.fnstack[-1] if self.fnstack else None
        return Raise(exc, msg, node, explicit, fn.name if fn else '<module>', val, fn.mod if fn else None)

    def catchable(self, exc):
        for hs in self.handlers:
            for h in hs:
                if h is None or exc_isa(exc, h):
                    return True
        return False

    def mayraise(self, exc, msg, node, st):
        """extra outcome when an enclosing handler could observe it"""
        if self.catchable(exc):
            s2 = st.fork()
            r = self.err(exc, msg, node)
            r.may = True
            s2.assume[tm.uf('mayraise', (exc, getattr(node, 'lineno', 0)), ())] = True
            return [(r, s2)]
        return []

    # ------------------------------------------------------- statements
    def block(self, stmts, states):
        """returns (normal states, other completions [(kind, payload, S)])"""
        others = []
        for n in stmts:
            nxt = []
            for s in states:
                nn, oo = self.stmt(n, s)
                nxt += nn
                others += oo
            if len(nxt) >= self.merge and isinstance(n, (ast.For, ast.While, ast.Assign, ast.AugAssign, ast.If)):
                nxt = coalesce(nxt, self.floors[-1])
            states = self.reduce(nxt)
            if not states:
                break
        return states, others

    def reduce(self, states, cap=None):
        cap = cap or self.cap
        if len(states) <= cap:
            return states
        groups = {}
        for s in states:
            e = s.get(s.env)
            k = tuple(sorted((n, desc(v, s)) for n, v in e.vars.items()), ) if e.fn is not None else ()
            groups.setdefault(repr(k), []).append(s)
        out = []
        for g in groups.values():
            j = g[0]
            for x in g[1:]:
                j = join_states(j, x)
            out.append(j)
        if len(out) <= cap:
            return out
        groups = {}
        for s in out:
            e = s.get(s.env)
            k = tuple(sorted((n, cdesc(desc(v, s))) for n, v in e.vars.items()))
            groups.setdefault(repr(k), []).append(s)
        out = []
        for g in groups.values():
            j = g[0]
            for x in g[1:]:
                j = join_states(j, x)
            out.append(j)
        while len(out) > cap:
            a = out.pop()
            out[-1] = join_states(out[-1], a)
        return out

    def reduce_vals(self, pairs, cap=None):
        """[(value,S)] -> at most cap of them"""
        cap = cap or self.cap
        if len(pairs) <= cap:
            return pairs
        groups = {}
        for v, s in pairs:
            groups.setdefault(repr(desc(v, s)), []).append((v, s))

        def fold(groups):
            out = []
            for g in groups.values():
                v, s = g[0]
                for w, t in g[1:]:
                    v, s = join_states(s, t, v, w)
                out.append((v, s))
            return out
        out = fold(groups)
        if len(out) > cap:
            groups = {}
            for v, s in out:
                groups.setdefault(repr(cdesc(desc(v, s))), []).append((v, s))
            out = fold(groups)
        while len(out) > cap:
            w, t = out.pop()
            v, s = out.pop()
            out.append(join_states(s, t, v, w))
        return out

    def stmt(self, n, s):
        self.steps += 1
        if self.steps > self.limit:
            raise Limit('step limit')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Limit('statement %s' % type(n).__name__)
        return m(n, s)

    def s_Expr(self, n, s):
        if isinstance(n.value, ast.Constant):
            return [s], []
        out, oth = [], []
        for v, t in self.ev(n.value, s):
            if isinstance(v, Raise):
                oth.append(('raise', v, t))
            else:
                out.append(t)
        return out, oth

    def s_Pass(self, n, s):
        return [s], []

    def s_Assign(self, n, s):
        out, oth = [], []
        for v, t in self.ev(n.value, s):
            if isinstance(v, Raise):
                oth.append(('raise', v, t))
                continue
            cur = [t]
            for tg in n.targets:
                nx = []
                for c in cur:
                    for r, u in self.assign(tg, v, c):
                        if isinstance(r, Raise):
                            oth.append(('raise', r, u))
                        else:
                            nx.append(u)
                cur = nx
            out += cur
        return out, oth

    def s_AnnAssign(self, n, s):
        if n.value is None:
            return [s], []
        return self.s_Assign(ast.copy_location(ast.Assign([n.target], n.value), n), s)

    def assign(self, tg, v, s):
        """-> [(None|Raise, S)]"""
        if isinstance(tg, ast.Name):
            self.setvar(s, tg.id, v)
            return [(None, s)]
        if isinstance(tg, ast.Attribute):
            out = []
            for o, t in self.ev(tg.value, s):
                if isinstance(o, Raise):
                    out.append((o, t))
                else:
                    out += self.setattr_(o, tg.attr, v, t, tg)
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for vals, t in self.seq([tg.value, tg.slice], s):
                if isinstance(vals, Raise):
                    out.append((vals, t))
                else:
                    out += self.setitem_(vals[0], vals[1], v, t, tg)
            return out
        if isinstance(tg, (ast.Tuple, ast.List)):
            return self.unpack(tg, v, s)
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, v, s)
        raise Limit('assignment target')

    def unpack(self, tg, v, s):
        k = len(tg.elts)
        star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
        out = []
        for items, t in self.iterate(v, s, tg, k if not star else None):
            if isinstance(items, Raise):
                out.append((items, t))
                continue
            if items is None or isinstance(items, tuple) and items[0] == 'unk':
                elem = items[1] if items else Top()
                items = [elem] * (k - len(star))
                if star:
                    items.insert(star[0], t.unk_list(elem))
                vals = items
            elif star:
                i = star[0]
                after = k - i - 1
                if len(items) < k - 1:
                    out.append((self.err('ValueError', 'not enough values to unpack', tg), t))
                    continue
                mid = items[i:len(items) - after]
                vals = items[:i] + [t.new_list(mid)] + items[len(items) - after:]
            else:
                if len(items) != k:
                    out.append((self.err('ValueError', 'unpack: expected %d values, got %d' % (k, len(items)), tg), t))
                    continue
                vals = items
            cur = [(None, t)]
            for e, x in zip(tg.elts, vals):
                nx = []
                for r, u in cur:
                    if isinstance(r, Raise):
                        nx.append((r, u))
                    else:
                        nx += self.assign(e, x, u)
                cur = nx
            out += cur
        return out

    def s_AugAssign(self, n, s):
        op = BINOPS[type(n.op)]
        out, oth = [], []
        tg = n.target
        if isinstance(tg, ast.Name):
            pre = [tg]
        elif isinstance(tg, ast.Attribute):
            pre = [tg.value]
        else:
            pre = [tg.value, tg.slice]
        load = ast.copy_location(ast.Name(tg.id, ast.Load()), tg) if isinstance(tg, ast.Name) else None
        nodes = [load] if load is not None else pre
        for vals, t in self.seq(nodes, s):
            if isinstance(vals, Raise):
                oth.append(('raise', vals, t))
                continue
            if load is not None:
                curs = [(vals[0], t)]
            elif isinstance(tg, ast.Attribute):
                curs = self.getattr_(vals[0], tg.attr, t, tg)
            else:
                curs = self.getitem_(vals[0], vals[1], t, tg)
            for cur, t2 in curs:
                if isinstance(cur, Raise):
                    oth.append(('raise', cur, t2))
                    continue
                for rv, t3 in self.ev(n.value, t2):
                    if isinstance(rv, Raise):
                        oth.append(('raise', rv, t3))
                        continue
                    for res, t4 in self.inplace(op, cur, rv, t3, n):
                        if isinstance(res, Raise):
                            oth.append(('raise', res, t4))
                            continue
                        if load is not None:
                            self.setvar(t4, tg.id, res)
                            out.append(t4)
                            continue
                        if isinstance(tg, ast.Attribute):
                            rr = self.setattr_(vals[0], tg.attr, res, t4, tg)
                        elif isinstance(res, A) and isinstance(cur, A) and res.buf == cur.buf and res.view == cur.view \
                                and isinstance(vals[0], A) and vals[0].buf == res.buf:
                            rr = [(None, t4)]
                        else:
                            rr = self.setitem_(vals[0], vals[1], res, t4, tg)
                        for r, t5 in rr:
                            if isinstance(r, Raise):
                                oth.append(('raise', r, t5))
                            else:
                                out.append(t5)
        return out, oth

    def s_Return(self, n, s):
        if n.value is None:
            return [], [('return', NONE, s)]
        oth = []
        for v, t in self.ev(n.value, s):
            oth.append(('raise', v, t) if isinstance(v, Raise) else ('return', v, t))
        return [], oth

    def s_Raise(self, n, s):
        if n.exc is None:
            r = s.excs[-1] if s.excs else None
            exc = r.exc if r is not None else 'RuntimeError'
            q = self.err(exc, 're-raise', n, True)
            if r is not None:
                q = r
            return [], [('raise', q, s)]
        oth = []
        for v, t in self.ev(n.exc, s):
            if isinstance(v, Raise):
                oth.append(('raise', v, t))
                continue
            name, msg = self.exc_name(v, t)
            oth.append(('raise', self.err(name, msg, n, True, v), t))
        return [], oth

    def exc_name(self, v, t):
        if isinstance(v, XO) and v.tag.startswith('exc:'):
            return v.tag[4:], ''
        if isinstance(v, X):
            return v.path.split('.')[-1], ''
        if isinstance(v, R) and isinstance(t.heap.get(v.id), HInst):
            return self.user_exc(t.heap[v.id].cls), ''
        if isinstance(v, K):
            return self.user_exc(v.cls), ''
        return 'Exception', ''

    def user_exc(self, cls):
        nm = cls.name
        if nm not in EXC_BASES:
            bases = []
            for b in cls.ext_bases():
                bn = b.split('.')[-1]
                bases.append(bn)
                c = getattr(_bi, bn, None)
                if isinstance(c, type):
                    bases += [x.__name__ for x in c.__mro__]
                bases += EXC_BASES.get(bn, ())
            bases += [c.name for c in cls.mro()]
            EXC_BASES[nm] = tuple(bases)
        return nm

    def s_If(self, n, s):
        out, oth = [], []
        for b, t in self.cond(n.test, s):
            if isinstance(b, Raise):
                oth.append(('raise', b, t))
                continue
            nn, oo = self.block(n.body if b else n.orelse, [t])
            out += nn
            oth += oo
        return out, oth

    def s_While(self, n, s):
        out, oth = [], []
        work = [s]
        it = -1
        for _ in range(400):
            nxt = []
            # rounds with a decided condition are unrolled
            cs = [(c, self.cond(n.test, c)) for c in work]
            if any(len(r) > 1 for _, r in cs) or it >= 0:
                it += 1
            for c, r in cs:
                for b, t in r:
                    if isinstance(b, Raise):
                        oth.append(('raise', b, t))
                    elif b:
                        nxt.append(t)
                    else:
                        nn, oo = self.block(n.orelse, [t])
                        out += nn
                        oth += oo
            if not nxt:
                return self.reduce(out), oth
            body, oo = self.block(n.body, nxt)
            cont = []
            for k, p, t in oo:
                if k == 'break':
                    out.append(t)
                elif k == 'continue':
                    cont.append(t)
                else:
                    oth.append((k, p, t))
            if it < 0 and len(body) + len(oo) > len(nxt):
                it = 0
            work = self.reduce(body + cont)
            # undecided loops: forget what the condition depends on
            if it >= 3:
                work = [self.widen(w, s) for w in work]
                work = self.reduce(work, 4)
            if not work:
                return self.reduce(out), oth
            if it >= 6:
                break
        # assume eventual termination
        for w in work:
            w = w.fork()
            w.vague += 1
            out.append(w)
        return self.reduce(out), oth

    def widen(self, s, ref):
        """drop assumptions and turn scalars changed since `ref` into unknowns"""
        s.assume = {k: v for k, v in s.assume.items() if k in ref.assume and ref.assume[k] == v}
        e0 = ref.heap.get(s.env)
        e = s.mut(s.env)
        for k, v in list(e.vars.items()):
            v0 = e0.vars.get(k) if e0 is not None else None
            if v0 is None or v0 == v:
                continue
            if isinstance(v, (C, N)) and num_kind(v):
                kd = num_kind(v)
                if isinstance(v0, (C, N)) and num_kind(v0) and num_kind(v0) != kd:
                    kd = 'num'
                e.vars[k] = N(kd, tm.fresh('w'))
            elif isinstance(v, A):
                e.vars[k] = s.new_arr(tm.fresh('w', None if v.shape is None else v.shape) if v.shape is not None and tm.conc(v.shape)
                                      else tm.mk('leaf', ('w#%d' % new_id(), ()), v.shape), v.dtype)
        return s

    def s_For(self, n, s):
        out, oth = [], []
        for it, t in self.ev(n.iter, s):
            if isinstance(it, Raise):
                oth.append(('raise', it, t))
                continue
            for items, t2 in self.iterate(it, t, n):
                if isinstance(items, Raise):
                    oth.append(('raise', items, t2))
                    continue
                if items is None or isinstance(items, tuple):
                    o, p = self.for_unknown(n, items, t2)
                else:
                    o, p = self.for_known(n, items, t2, self.walked(n, it, t2))
                out += o
                oth += p
        return self.reduce(out), oth

    def walked(self, n, it, s):
        """(list walked by the loop, numbered): changes to it in the body are seen by the loop"""
        if isinstance(it, R):
            return (it.id, False) if isinstance(s.heap[it.id], HList) else None
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(n.iter.args) == 1 \
                and not n.iter.keywords and isinstance(n.iter.args[0], ast.Name):
            for v, t in self.ev(n.iter.args[0], s.fork()):
                if isinstance(v, R) and isinstance(t.heap[v.id], HList):
                    return v.id, True
        return None

    def for_walked(self, n, live, pos, states, done, oth, ends):
        """one round over a list that the body changes; states that reached its end go to ends"""
        nxt = []
        for c in states:
            h = c.heap[live[0]]
            if h.items is None:
                c.vague += 1
                ends.append(c)
            elif pos >= len(h.items):
                ends.append(c)
            else:
                x = h.items[pos]
                for r, t in self.assign(n.target, Tu([C(pos), x]) if live[1] else x, c):
                    if isinstance(r, Raise):
                        oth.append(('raise', r, t))
                    else:
                        nxt.append(t)
        return nxt

    def for_known(self, n, items, s, live=None):
        states, done, oth = [s], [], []
        if live is not None:
            start, ends, pos = list(s.heap[live[0]].items or ()), [], 0
            if len(start) <= LONG:
                while states and pos <= 4 * LONG:
                    states, oo = self.block(n.body, self.reduce(self.for_walked(n, live, pos, states, done, oth, ends)))
                    for k, p, t in oo:
                        if k == 'break':
                            done.append(t)
                        elif k == 'continue':
                            states.append(t)
                        else:
                            oth.append((k, p, t))
                    states = self.reduce(states)
                    pos += 1
                for c in states:
                    c.vague += 1
                ends = self.reduce(ends + states)
                if ends:
                    nn, oo = self.block(n.orelse, ends)
                    done += nn
                    oth += oo
                return self.reduce(done), oth
        for pos, x in enumerate(items):
            if pos == UNROLL and len(items) > LONG:
                # long loop: the remaining iterations are summarised
                el = N('int', tm.fresh('el')) if all(isinstance(y, C) and type(y.v) is int for y in items) \
                    else union(items[pos:])
                for c in self.reduce(states, 2):
                    o, p = self.for_unknown(n, ('unk', el, tm.const(len(items) - pos)), c)
                    done += o
                    oth += p
                return self.reduce(done), oth
            nxt = []
            for c in states:
                for r, t in self.assign(n.target, x, c):
                    if isinstance(r, Raise):
                        oth.append(('raise', r, t))
                    else:
                        nxt.append(t)
            body, oo = self.block(n.body, self.reduce(nxt))
            states = body
            for k, p, t in oo:
                if k == 'break':
                    done.append(t)
                elif k == 'continue':
                    states.append(t)
                else:
                    oth.append((k, p, t))
            states = self.reduce(states)
            if not states:
                break
        if states:
            nn, oo = self.block(n.orelse, states)
            done += nn
            oth += oo
        return self.reduce(done), oth

    def for_unknown(self, n, items, s):
        elem = items[1] if items else Top()
        length = items[2] if items and len(items) > 2 else None
        oth, done = [], []
        entry = s
        lo = tm.ibounds(length)[0] if length is not None else 0
        acc = [] if (lo or 0) > 0 else [s.fork()]
        work = [s]
        for it in range(4):
            nxt = []
            for c in work:
                for r, t in self.assign(n.target, self.refresh(elem, c), c):
                    if isinstance(r, Raise):
                        oth.append(('raise', r, t))
                    else:
                        nxt.append(t)
            body, oo = self.block(n.body, self.reduce(nxt))
            work = body
            for k, p, t in oo:
                if k == 'break':
                    done.append(t)
                elif k == 'continue':
                    work.append(t)
                else:
                    oth.append((k, p, t))
            if not work:
                break
            work = self.reduce(work, 2)
            for w in work:
                acc.append(w.fork())
            if it >= 1:
                work = [self.widen(w, entry) for w in work]
        acc = self.reduce(acc, 3)
        if acc:
            nn, oo = self.block(n.orelse, acc)
            done += nn
            oth += oo
        return self.reduce(done), oth

    def refresh(self, v, s):
        """a fresh instance of an abstract element"""
        if isinstance(v, N):
            return N(v.kind, tm.fresh('el'), v.isnp)
        if isinstance(v, Tu):
            return Tu([self.refresh(x, s) for x in v.items])
        return v

    def s_Break(self, n, s):
        return [], [('break', None, s)]

    def s_Continue(self, n, s):
        return [], [('continue', None, s)]

    def handler_names(self, h, s):
        if h.type is None:
            return (None,)
        out = []
        els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for e in els:
            r = self.ev(e, s.fork())
            v = r[0][0] if r else None
            if isinstance(v, X):
                out.append(v.path.split('.')[-1])
            elif isinstance(v, K):
                out.append(self.user_exc(v.cls))
            elif isinstance(v, Tu):
                out += [x.path.split('.')[-1] for x in v.items if isinstance(x, X)]
            else:
                out.append('Exception')
        return tuple(out)

    def s_Try(self, n, s):
        hn = [self.handler_names(h, s) for h in n.handlers]
        self.handlers.append(tuple(x for h in hn for x in h))
        try:
            norm, oth = self.block(n.body, [s])
        finally:
            self.handlers.pop()
        res, rest = [], []
        seen = set()
        for k, p, t in oth:
            if k != 'raise':
                rest.append((k, p, t))
                continue
            for h, names in zip(n.handlers, hn):
                if any(x is None or exc_isa(p.exc, x) for x in names):
                    key = (id(h), p.exc, id(p.node)) if p.may else None
                    if key is not None and key in seen and len(oth) > 40:
                        break
                    seen.add(key)
                    if h.name:
                        self.setvar(t, h.name, XO('exc:' + p.exc))
                    t.excs = t.excs + (p,)
                    nn, oo = self.block(h.body, [t])
                    for x in nn + [q[2] for q in oo]:
                        x.excs = x.excs[:-1]
                    res += nn
                    rest += oo
                    break
            else:
                rest.append((k, p, t))
        if norm and n.orelse:
            norm, oo = self.block(n.orelse, norm)
            rest += oo
        norm = norm + res
        if n.finalbody:
            o2, r2 = [], []
            for t in norm:
                nn, oo = self.block(n.finalbody, [t])
                o2 += nn
                r2 += oo
            for k, p, t in rest:
                nn, oo = self.block(n.finalbody, [t])
                r2 += [(k, p, x) for x in nn]
                r2 += oo
            norm, rest = o2, r2
        return self.reduce(norm), rest

    s_TryStar = s_Try

    def s_With(self, n, s):
        states, oth = [s], []
        exits = []
        sup = []
        for item in n.items:
            nxt = []
            for c in states:
                for v, t in self.ev(item.context_expr, c):
                    if isinstance(v, Raise):
                        oth.append(('raise', v, t))
                        continue
                    if isinstance(v, XO) and v.tag == 'suppress':
                        sup += list(v.term or ())
                    enter = [(v, t)]
                    if isinstance(v, R) and isinstance(t.heap.get(v.id), HInst):
                        m = t.heap[v.id].cls.find('__enter__')
                        if m is not None:
                            enter = self.call(BM(v, m), [], {}, t, n)
                            exits.append(v)
                    elif isinstance(v, XO):
                        enter = [(self.ext.enter_ctx(self, v, t), t)]
                    for w, u in enter:
                        if isinstance(w, Raise):
                            oth.append(('raise', w, u))
                            continue
                        if item.optional_vars is not None:
                            for r, u2 in self.assign(item.optional_vars, w, u):
                                if isinstance(r, Raise):
                                    oth.append(('raise', r, u2))
                                else:
                                    nxt.append(u2)
                        else:
                            nxt.append(u)
            states = nxt
        if sup:
            self.handlers.append(tuple(sup))
        norm, oo = self.block(n.body, states)
        if sup:
            self.handlers.pop()
            keep = []
            for k, p, t in oo:
                if k == 'raise' and any(exc_isa(p.exc, x) for x in sup):
                    norm.append(t)
                else:
                    keep.append((k, p, t))
            oo = keep
        for v in exits:
            o2 = []
            for t in norm:
                m = t.heap[v.id].cls.find('__exit__')
                if m is None:
                    o2.append(t)
                    continue
                for r, u in self.call(BM(v, m), [NONE, NONE, NONE], {}, t, n):
                    if isinstance(r, Raise):
                        oo.append(('raise', r, u))
                    else:
                        o2.append(u)
            norm = o2
        return norm, oth + oo

    def s_FunctionDef(self, n, s):
        out, oth = [], []
        a = n.args
        dn = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        for vals, t in self.seq(dn, s):
            if isinstance(vals, Raise):
                oth.append(('raise', vals, t))
                continue
            f = self.mkfn(n, t, vals, n.name)
            v = f
            res = [(v, t)]
            for d in reversed(n.decorator_list):
                nx = []
                for w, u in res:
                    if isinstance(w, Raise):
                        nx.append((w, u))
                        continue
                    for dv, u2 in self.ev(d, u):
                        if isinstance(dv, Raise):
                            nx.append((dv, u2))
                        else:
                            nx += self.call(dv, [w], {}, u2, d)
                res = nx
            for w, u in res:
                if isinstance(w, Raise):
                    oth.append(('raise', w, u))
                else:
                    self.setvar(u, n.name, w)
                    out.append(u)
        return out, oth

    def mkfn(self, n, t, vals, name):
        a = n.args
        nd = len(a.defaults)
        kwd, k = {}, nd
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = vals[k]
                k += 1
        info = self.fninfo.get(n)
        if info is None:
            info = self.fninfo[n] = FnInfo(n)
        e = t.get(t.env)
        envid = t.env
        # class bodies are not enclosing scopes
        while getattr(e, 'fn', None) == '<class>':
            envid = e.parent
            e = t.get(envid)
        cls = None
        return Fn(n, self.modname(t), envid, name, cls, tuple(vals[:nd]), kwd, info)

    def s_ClassDef(self, n, s):
        out, oth = [], []
        for vals, t in self.seq(list(n.bases), s):
            if isinstance(vals, Raise):
                oth.append(('raise', vals, t))
                continue
            c = Cls(n.name, self.modname(t), [b for b in vals], {})
            saved = t.env
            t.env = t.alloc(HEnv({}, saved, None, self.modname(t), '<class>'))
            nn, oo = self.block(n.body, [t])
            for k, p, u in oo:
                u.env = saved
                oth.append((k, p, u))
            for u in nn:
                c.attrs = dict(u.get(u.env).vars)
                for v in c.attrs.values():
                    for f in (v, getattr(v, 'fn', None), getattr(v, 'fget', None), getattr(v, 'fset', None)):
                        if isinstance(f, Fn):
                            f.cls = c
                u.env = saved
                k = K(c)
                self.setvar(u, n.name, k)
                out.append(u)
                break
        return out, oth

    def s_Import(self, n, s):
        for a in n.names:
            if self.is_internal(a.name):
                self.load(a.name)
                root = a.name if a.asname else a.name.split('.')[0]
                self.setvar(s, a.asname or root, Mod(root))
            else:
                self.setvar(s, a.asname or a.name.split('.')[0], X(a.name if a.asname else a.name.split('.')[0]))
        return [s], []

    def s_ImportFrom(self, n, s):
        mod = n.module or ''
        if n.level:
            base = self.modname(s)
            if self.modfile(base) and not self.modfile(base).endswith('__init__.py'):
                base = base.rsplit('.', 1)[0] if '.' in base else base
            for _ in range(n.level - 1):
                base = base.rsplit('.', 1)[0]
            mod = base + ('.' + mod if mod else '')
        if self.is_internal(mod):
            self.load(mod)
            if s is not self.S0 and s.env in self.S0.heap and self.S0.heap is not s.heap:
                for k, v in self.S0.heap.items():
                    if k not in s.heap:
                        s.heap[k] = v
            env = s.get(self.mods[mod])
            for a in n.names:
                if a.name == '*':
                    al = env.vars.get('__all__')
                    if al is not None:
                        r = self.iterate(al, s, n)
                        names = [x.v for x in r[0][0]]
                    else:
                        names = [k for k in env.vars if not k.startswith('_')]
                    for k in names:
                        if k not in env.vars:
                            return [], [('raise', self.err('AttributeError', 'no %s in %s' % (k, mod), n), s)]
                        self.setvar(s, k, env.vars[k])
                elif a.name in env.vars:
                    self.setvar(s, a.asname or a.name, env.vars[a.name])
                elif self.modfile(mod + '.' + a.name):
                    self.load(mod + '.' + a.name)
                    self.setvar(s, a.asname or a.name, Mod(mod + '.' + a.name))
                else:
                    return [], [('raise', self.err('ImportError', 'cannot import %s from %s' % (a.name, mod), n), s)]
        else:
            for a in n.names:
                self.setvar(s, a.asname or a.name, self.ext.resolve(mod + '.' + a.name))
        return [s], []

    def s_Global(self, n, s):
        return [s], []

    s_Nonlocal = s_Global

    def s_Assert(self, n, s):
        out, oth = [], []
        for b, t in self.cond(n.test, s):
            if isinstance(b, Raise):
                oth.append(('raise', b, t))
            elif b:
                out.append(t)
            else:
                oth.append(('raise', self.err('AssertionError', '', n, True), t))
        return out, oth

    def s_Delete(self, n, s):
        states, oth = [s], []
        for tg in n.targets:
            nx = []
            for c in states:
                if isinstance(tg, ast.Name):
                    e = c.mut(c.env)
                    e.vars.pop(tg.id, None)
                    nx.append(c)
                elif isinstance(tg, ast.Subscript):
                    for vals, t in self.seq([tg.value, tg.slice], c):
                        if isinstance(vals, Raise):
                            oth.append(('raise', vals, t))
                            continue
                        o, k = vals
                        if isinstance(o, R):
                            h = t.mut(o.id)
                            self.note_write(o, t, n)
                            if isinstance(h, HDict) and isinstance(k, C):
                                h.items.pop(dkey(k), None)
                            elif isinstance(h, HList) and h.items is not None and isinstance(k, C):
                                try:
                                    del h.items[k.v]
                                except Exception:
                                    pass
                            elif isinstance(h, HList):
                                h.elem = self.list_elem(h)
                                h.items, h.length = None, tm.dimvar('len')
                        nx.append(t)
                elif isinstance(tg, ast.Attribute):
                    for o, t in self.ev(tg.value, c):
                        if isinstance(o, R) and isinstance(t.heap.get(o.id), HInst):
                            t.mut(o.id).attrs.pop(tg.attr, None)
                            self.note_write(o, t, n)
                        nx.append(t)
                else:
                    nx.append(c)
            states = nx
        return states, oth

    def s_Match(self, n, s):
        out, oth = [], []
        for subj, t in self.ev(n.subject, s):
            if isinstance(subj, Raise):
                oth.append(('raise', subj, t))
                continue
            pend = [t]
            for case in n.cases:
                nx = []
                for c in pend:
                    for ok, u in self.match_pat(case.pattern, subj, c, n):
                        if isinstance(ok, Raise):
                            oth.append(('raise', ok, u))
                        elif ok and case.guard is not None:
                            for b, w in self.cond(case.guard, u):
                                if isinstance(b, Raise):
                                    oth.append(('raise', b, w))
                                elif b:
                                    a, o = self.block(case.body, [w])
                                    out += a
                                    oth += o
                                else:
                                    nx.append(w)
                        elif ok:
                            a, o = self.block(case.body, [u])
                            out += a
                            oth += o
                        else:
                            nx.append(u)
                pend = nx
            out += pend
        return out, oth

    def match_pat(self, p, v, s, node):
        if isinstance(p, ast.MatchValue):
            out = []
            for x, t in self.ev(p.value, s):
                for r, u in self.compare('eq', v, x, t, node):
                    out += self.truth(r, u, node)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.truth_of(self.compare('is', v, C(p.value), s, node), node)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setvar(s, p.name, v)
                return [(True, s)]
            out = []
            for ok, t in self.match_pat(p.pattern, v, s, node):
                if ok is True and p.name:
                    self.setvar(t, p.name, v)
                out.append((ok, t))
            return out
        if isinstance(p, ast.MatchOr):
            pend, out = [s], []
            for q in p.patterns:
                nx = []
                for c in pend:
                    for ok, t in self.match_pat(q, v, c, node):
                        (out if ok else nx).append((ok, t) if ok else t)
                pend = nx
            return out + [(False, t) for t in pend]
        s2 = s.fork()
        s.vague += 1
        s2.vague += 1
        return [(True, s), (False, s2)]

    def truth_of(self, pairs, node):
        out = []
        for r, t in pairs:
            if isinstance(r, Raise):
                out.append((r, t))
            else:
                out += self.truth(r, t, node)
        return out

    # -------------------------------------------------------- variables
    def setvar(self, s, name, v):
        e = s.get(s.env)
        if e.globals_ and name in e.globals_:
            m = s.mut(self.mods[e.mod])
            m.vars[name] = v
            s.event('global-write', e.mod, name, self.where(None))
            return
        if e.nonlocals and name in e.nonlocals:
            i = e.parent
            while i is not None:
                p = s.get(i)
                if name in p.vars or (p.locals and name in p.locals):
                    s.mut(i).vars[name] = v
                    return
                i = p.parent
        s.mut(s.env).vars[name] = v

    def lookup(self, name, s, node):
        """-> [(val,S)]"""
        i = s.env
        first = True
        while i is not None:
            e = s.get(i)
            v = e.vars.get(name)
            if v is not None and not (e.fn == '<class>' and not first):
                if isinstance(v, UV):
                    out = []
                    for k, a in enumerate(v.alts):
                        t = s.fork() if k < len(v.alts) - 1 else s
                        t.mut(i).vars[name] = a
                        if a is UNDEF:
                            r = self.err('UnboundLocalError', 'local variable %r may be unbound' % name, node)
                            out.append((r, t))
                        else:
                            out.append((a, t))
                    return out
                if v is UNDEF:
                    return [(self.err('UnboundLocalError', 'local variable %r is unbound' % name, node), s)]
                return [(v, s)]
            if e.locals is not None and name in e.locals and e.fn != '<class>':
                return [(self.err('UnboundLocalError', 'local variable %r is unbound' % name, node), s)]
            first = False
            i = e.parent
        m = s.get(self.mods[self.modname(s)])
        if name in m.vars:
            return [(m.vars[name], s)]
        if hasattr(_bi, name):
            return [(X('builtins.' + name), s)]
        return [(self.err('NameError', 'name %r is not defined' % name, node), s)]

    # ------------------------------------------------------ expressions
    def seq(self, nodes, s):
        """evaluate in order -> [(list|Raise, S)]"""
        res = [([], s)]
        for n in nodes:
            nx = []
            for vals, t in res:
                if isinstance(vals, Raise):
                    nx.append((vals, t))
                    continue
                for v, u in self.ev(n, t):
                    nx.append((v if isinstance(v, Raise) else vals + [v], u))
            res = nx
        return res

    def ev(self, n, s):
        self.steps += 1
        if self.steps > self.limit:
            raise Limit('step limit')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return [(Top(), s)]
        r = m(n, s)
        if len(r) > self.cap:
            ra = [x for x in r if isinstance(x[0], Raise)]
            r = self.reduce_vals([x for x in r if not isinstance(x[0], Raise)]) + ra[:self.cap]
        return r

    def e_Constant(self, n, s):
        return [(C(n.value), s)]

    def e_Name(self, n, s):
        return self.lookup(n.id, s, n)

    def e_Tuple(self, n, s):
        return self._elts(n, s, lambda vals, t: Tu(vals))

    def e_List(self, n, s):
        return self._elts(n, s, lambda vals, t: t.new_list(vals))

    def e_Set(self, n, s):
        return self._elts(n, s, lambda vals, t: R(t.alloc(HSet(list(vals)))))

    def _elts(self, n, s, build):
        out = []
        if not any(isinstance(e, ast.Starred) for e in n.elts):
            for vals, t in self.seq(n.elts, s):
                out.append((vals, t) if isinstance(vals, Raise) else (build(vals, t), t))
            return out
        for vals, t in self.starseq(n.elts, s):
            if isinstance(vals, Raise):
                out.append((vals, t))
            elif vals is None:
                out.append((t.unk_list(Top()), t))
            else:
                out.append((build(vals, t), t))
        return out

    def starseq(self, nodes, s):
        res = [([], s)]
        for n in nodes:
            nx = []
            for vals, t in res:
                if isinstance(vals, Raise) or vals is None:
                    nx.append((vals, t))
                    continue
                if isinstance(n, ast.Starred):
                    for v, u in self.ev(n.value, t):
                        if isinstance(v, Raise):
                            nx.append((v, u))
                            continue
                        for items, w in self.iterate(v, u, n):
                            if isinstance(items, Raise):
                                nx.append((items, w))
                            elif items is None or isinstance(items, tuple):
                                nx.append((None, w))
                            else:
                                nx.append((vals + items, w))
                else:
                    for v, u in self.ev(n, t):
                        nx.append((v if isinstance(v, Raise) else vals + [v], u))
            res = nx
        return res

    def e_Dict(self, n, s):
        out = []
        ks = [k for k in n.keys if k is not None]
        for vals, t in self.seq(ks + n.values, s):
            if isinstance(vals, Raise):
                out.append((vals, t))
                continue
            keys, vs = vals[:len(ks)], vals[len(ks):]
            d = HDict({})
            it = iter(keys)
            for kn, v in zip(n.keys, vs):
                if kn is None:
                    h = t.heap.get(v.id) if isinstance(v, R) else None
                    if isinstance(h, HDict):
                        d.items.update(h.items)
                        d.open_ |= h.open_
                    else:
                        d.open_ = True
                else:
                    k = next(it)
                    d.items[dkey(k)] = (k, v)
            out.append((R(t.alloc(d)), t))
        return out

    def e_JoinedStr(self, n, s):
        out = []
        parts = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        for vals, t in self.seq(parts, s):
            if isinstance(vals, Raise):
                out.append((vals, t))
                continue
            if all(isinstance(v, C) for v in vals):
                try:
                    it = iter(vals)
                    txt = ''
                    ok = True
                    for v in n.values:
                        if isinstance(v, ast.Constant):
                            txt += v.value
                        elif v.format_spec is None and v.conversion == -1:
                            txt += format(next(it).v)
                        else:
                            ok = False
                            break
                    if ok:
                        out.append((C(txt), t))
                        continue
                except Exception:
                    pass
            out.append((N('str', tm.fresh('fstr')), t))
        return out

    def e_FormattedValue(self, n, s):
        return self.ev(n.value, s)

    def e_Lambda(self, n, s):
        a = n.args
        out = []
        dn = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        for vals, t in self.seq(dn, s):
            if isinstance(vals, Raise):
                out.append((vals, t))
            else:
                out.append((self.mkfn(n, t, vals, '<lambda>'), t))
        return out

    def e_IfExp(self, n, s):
        out = []
        for b, t in self.cond(n.test, s):
            if isinstance(b, Raise):
                out.append((b, t))
            else:
                out += self.ev(n.body if b else n.orelse, t)
        return out

    def e_NamedExpr(self, n, s):
        out = []
        for v, t in self.ev(n.value, s):
            if not isinstance(v, Raise):
                self.setvar(t, n.target.id, v)
            out.append((v, t))
        return out

    def e_Starred(self, n, s):
        return self.ev(n.value, s)

    def e_Slice(self, n, s):
        out = []
        nodes = [x for x in (n.lower, n.upper, n.step) if x is not None]
        for vals, t in self.seq(nodes, s):
            if isinstance(vals, Raise):
                out.append((vals, t))
                continue
            it = iter(vals)
            f = [next(it) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
            out.append((SL(*f), t))
        return out

    def e_Await(self, n, s):
        return [(Top(), s)]

    e_Yield = e_YieldFrom = e_Await

    def e_UnaryOp(self, n, s):
        if isinstance(n.op, ast.Not):
            out = []
            for b, t in self.cond(n.operand, s):
                out.append((b if isinstance(b, Raise) else C(not b), t))
            return out
        out = []
        for v, t in self.ev(n.operand, s):
            if isinstance(v, Raise):
                out.append((v, t))
            else:
                op = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}[type(n.op)]
                out += self.unary(op, v, t, n)
        return out

    def unary(self, op, v, t, n):
        if isinstance(v, UV):
            return self.split(v, t, lambda a, u: self.unary(op, a, u, n))
        if isinstance(v, R) and isinstance(t.heap.get(v.id), HInst):
            m = t.heap[v.id].cls.find('__%s__' % op)
            if m is None:
                return [(self.err('TypeError', 'bad operand type for unary %s' % op, n), t)]
            return self.call(BM(v, m), [], {}, t, n)
        return self.ext.unary(self, op, v, t, n)

    def split(self, v, s, f):
        out = []
        for k, a in enumerate(v.alts):
            t = s.fork() if k < len(v.alts) - 1 else s
            if a is UNDEF:
                out.append((self.err('UnboundLocalError', 'possibly unbound value', None), t))
            else:
                out += f(a, t)
        return out

    def e_BinOp(self, n, s):
        out = []
        for vals, t in self.seq([n.left, n.right], s):
            if isinstance(vals, Raise):
                out.append((vals, t))
            else:
                out += self.binop(BINOPS[type(n.op)], vals[0], vals[1], t, n)
        return out

    def inst(self, v, s):
        if isinstance(v, R):
            h = s.heap.get(v.id)
            if isinstance(h, HInst):
                return h
        return None

    def binop(self, op, l, r, s, n):
        if isinstance(l, UV):
            return self.split(l, s, lambda a, t: self.binop(op, a, r, t, n))
        if isinstance(r, UV):
            return self.split(r, s, lambda a, t: self.binop(op, l, a, t, n))
        hl, hr = self.inst(l, s), self.inst(r, s)
        if hl is not None or hr is not None:
            out = []
            pend = [s]
            # a subclass on the right with its own reflected method goes first
            if hl is not None:
                m = hl.cls.find(DUNDER[op])
                if m is not None:
                    pend = []
                    for v, t in self.call(BM(l, m), [r], {}, s, n):
                        if isinstance(v, X) and v.path == 'builtins.NotImplemented':
                            pend.append(t)
                        else:
                            out.append((v, t))
            for t in pend:
                if hr is not None and not (hl is not None and hl.cls is hr.cls):
                    if isinstance(l, A) or (isinstance(l, (N,)) and l.isnp):
                        au = hr.cls.find('__array_ufunc__')
                        if not (isinstance(au, C) and au.v is None):
                            # numpy takes the operand apart elementwise
                            t.event('object-array', self.where(n), op)
                            out.append((t.new_arr(tm.mk('leaf', ('objarr#%d' % new_id(), ()), getattr(l, 'shape', ())),
                                                  'object', getattr(l, 'shape', ())), t))
                            continue
                    m = hr.cls.find(RDUNDER[op])
                    if m is not None:
                        for v, u in self.call(BM(r, m), [l], {}, t, n):
                            if isinstance(v, X) and v.path == 'builtins.NotImplemented':
                                out.append((self.err('TypeError', 'unsupported operand type(s) for %s' % op, n), u))
                            else:
                                out.append((v, u))
                        continue
                out.append((self.err('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (
                    op, self.tname(l, t), self.tname(r, t)), n), t))
            return out
        return self.ext.binop(self, op, l, r, s, n)

    def tname(self, v, s):
        h = self.inst(v, s)
        if h is not None:
            return h.cls.name
        return self.ext.type_name(self, v, s)

    def inplace(self, op, l, r, s, n):
        if isinstance(l, UV):
            return self.split(l, s, lambda a, t: self.inplace(op, a, r, t, n))
        if isinstance(r, UV):
            return self.split(r, s, lambda a, t: self.inplace(op, l, a, t, n))
        h = self.inst(l, s)
        if h is not None:
            m = h.cls.find(IDUNDER[op])
            if m is not None:
                return self.call(BM(l, m), [r], {}, s, n)
            return self.binop(op, l, r, s, n)
        return self.ext.inplace(self, op, l, r, s, n)

    # conditions ----------------------------------------------------------
    def cond(self, n, s):
        """-> [(bool|Raise, S)]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            pend, out = [s], []
            for i, v in enumerate(n.values):
                nx = []
                for t in pend:
                    for b, u in self.cond(v, t):
                        if isinstance(b, Raise):
                            out.append((b, u))
                        elif b != isand:
                            out.append((b, u))
                        else:
                            nx.append(u)
                pend = nx
            return out + [(isand, t) for t in pend]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(b if isinstance(b, Raise) else not b, t) for b, t in self.cond(n.operand, s)]
        out = []
        for v, t in self.ev(n, s):
            if isinstance(v, Raise):
                out.append((v, t))
            else:
                out += self.truth(v, t, n)
        return out

    def e_BoolOp(self, n, s):
        isand = isinstance(n.op, ast.And)
        pend, out = [s], []
        for i, v in enumerate(n.values):
            nx = []
            last = i == len(n.values) - 1
            for t in pend:
                for x, u in self.ev(v, t):
                    if isinstance(x, Raise) or last:
                        out.append((x, u))
                        continue
                    for b, w in self.truth(x, u, n):
                        if isinstance(b, Raise):
                            out.append((b, w))
                        elif b != isand:
                            out.append((self.known_bool(x, b), w))
                        else:
                            nx.append(w)
            pend = nx
        return out

    def known_bool(self, x, b):
        if isinstance(x, N) and x.kind == 'bool':
            return C(b)
        return x

    def truth(self, v, s, node):
        if isinstance(v, C):
            return [(bool(v.v), s)]
        if isinstance(v, UV):
            return self.split(v, s, lambda a, t: self.truth(a, t, node))
        if isinstance(v, N):
            return self.branch(self.ext.as_cond(v), s)
        if isinstance(v, A):
            return self.ext.arr_truth(self, v, s, node)
        if isinstance(v, Tu):
            return [(len(v.items) > 0, s)]
        if isinstance(v, R):
            h = s.heap[v.id]
            if isinstance(h, HList):
                if h.items is not None:
                    return [(len(h.items) > 0, s)]
                return self.branch(self.ext.cmp_scalar('lt', tm.ZERO, h.length), s)
            if isinstance(h, HDict):
                if h.items or not h.open_:
                    return [(len(h.items) > 0, s)]
            elif isinstance(h, HSet):
                if h.items or not h.open_:
                    return [(len(h.items) > 0, s)]
            elif isinstance(h, HInst):
                for nm in ('__bool__', '__len__'):
                    m = h.cls.find(nm)
                    if m is not None:
                        return self.truth_of(self.call(BM(v, m), [], {}, s, node), node)
                return [(True, s)]
            return self.vague_fork(s)
        if isinstance(v, Top):
            if v.term is not None:
                return self.branch(self.ext.as_cond(N('num', v.term)), s, vague=True)
            return self.vague_fork(s)
        if isinstance(v, XO) and v.tag in ('obj', 'generic'):
            return self.vague_fork(s)
        return [(True, s)]

    def vague_fork(self, s):
        self.forks += 1
        t = s.fork()
        s.vague += 1
        t.vague += 1
        return [(True, s), (False, t)]

    def branch(self, c, s, vague=False):
        """c: condition term or python bool"""
        if isinstance(c, bool):
            return [(c, s)]
        pol = True
        while c.op == 'not':
            c, pol = c.args[0], not pol
        if c.op == 'const':
            return [(bool(c.args[0]) == pol, s)]
        k = s.assume.get(c)
        if k is not None:
            return [(k == pol, s)]
        d = self.ext.decide(c, s)
        if d is None and self.general:
            d = tm.exact_truth(c)
            if d is None and c.op == 'uf' and c.args[0] in ('lt', 'alt', 'agt', 'ale', 'age') and tm.nonzero_test(c) is not None:
                # one outcome only is met in general position, but which is not known
                vague = True
        if d is not None:
            return [(d == pol, s)]
        if c.op == 'uf' and not vague:
            if c.args[0] == 'eq' and not self.ext.intish(c.args[1]) and not self.ext.intish(c.args[2]):
                if self.ext.ident(c.args[1], c.args[2]) is True:
                    return [(pol, s)]
            if len(s.assume) >= self.eqbudget:
                g = self.ext.generic_truth(c)
                if g is not None:
                    self.generic_taken += 1
                    s.assume[c] = g
                    return [(g == pol, s)]
        self.forks += 1
        t = s.fork()
        s.assume[c] = pol
        t.assume[c] = not pol
        if vague:
            s.vague += 1
            t.vague += 1
        return [(True, s), (False, t)]

    def e_Compare(self, n, s):
        if len(n.ops) == 1:
            out = []
            for vals, t in self.seq([n.left, n.comparators[0]], s):
                if isinstance(vals, Raise):
                    out.append((vals, t))
                else:
                    out += self.compare(CMPS[type(n.ops[0])], vals[0], vals[1], t, n)
            return out
        # chained
        out, pend = [], []
        for v, t in self.ev(n.left, s):
            if isinstance(v, Raise):
                out.append((v, t))
            else:
                pend.append((v, t))
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            nx = []
            last = i == len(n.ops) - 1
            for l, t in pend:
                for r, u in self.ev(c, t):
                    if isinstance(r, Raise):
                        out.append((r, u))
                        continue
                    for res, w in self.compare(CMPS[type(op)], l, r, u, n):
                        if isinstance(res, Raise) or last:
                            out.append((res, w))
                            continue
                        for b, x in self.truth(res, w, n):
                            if isinstance(b, Raise) or not b:
                                out.append((b if isinstance(b, Raise) else FALSE, x))
                            else:
                                nx.append((r, x))
            pend = nx
        return out

    def compare(self, op, l, r, s, n):
        if isinstance(l, UV):
            return self.split(l, s, lambda a, t: self.compare(op, a, r, t, n))
        if isinstance(r, UV):
            return self.split(r, s, lambda a, t: self.compare(op, l, a, t, n))
        if op in CDUNDER:
            hl, hr = self.inst(l, s), self.inst(r, s)
            if hl is not None or hr is not None:
                m = hl.cls.find(CDUNDER[op]) if hl is not None else None
                if m is not None:
                    return self.call(BM(l, m), [r], {}, s, n)
                m = hr.cls.find(CDUNDER[CSWAP[op]]) if hr is not None else None
                if m is not None:
                    return self.call(BM(r, m), [l], {}, s, n)
                if op in ('eq', 'ne'):
                    return [(C((l == r) == (op == 'eq')), s)]
                return [(self.err('TypeError', 'unorderable types', n), s)]
        return self.ext.compare(self, op, l, r, s, n)

    # attributes ------------------------------------------------------
    def e_Attribute(self, n, s):
        out = []
        for o, t in self.ev(n.value, s):
            if isinstance(o, Raise):
                out.append((o, t))
            else:
                out += self.getattr_(o, n.attr, t, n)
        return out

    def getattr_(self, o, name, s, n):
        if isinstance(o, UV):
            return self.split(o, s, lambda a, t: self.getattr_(a, name, t, n))
        if isinstance(o, R):
            h = s.heap[o.id]
            if isinstance(h, HInst):
                cv = h.cls.find(name)
                if isinstance(cv, Prop):
                    if cv.fget is None:
                        return [(self.err('AttributeError', 'unreadable attribute', n), s)]
                    return self.call(cv.fget, [o], {}, s, n)
                v = h.attrs.get(name)
                if v is not None and v is not UNDEF:
                    if isinstance(v, UV):
                        out = []
                        for k, a in enumerate(v.alts):
                            t = s.fork() if k < len(v.alts) - 1 else s
                            if a is UNDEF:
                                out.append((self.err('AttributeError', '%s object may lack attribute %r' % (h.cls.name, name), n), t))
                                continue
                            t.mut(o.id).attrs[name] = a
                            out.append((a, t))
                        return out
                    return [(v, s)]
                if cv is not None:
                    return [(self.bind(cv, o, h.cls), s)]
                if name == '__class__':
                    return [(K(h.cls), s)]
                if name == '__dict__':
                    return [(s.new_dict([(C(k), v) for k, v in h.attrs.items()]), s)]
                m = h.cls.find('__getattr__')
                if m is not None:
                    return self.call(BM(o, m), [C(name)], {}, s, n)
                return [(self.err('AttributeError', '%r object has no attribute %r' % (h.cls.name, name), n), s)]
            return self.ext.getattr_(self, o, name, s, n)
        if isinstance(o, K):
            cv = o.cls.find(name)
            if cv is not None:
                if isinstance(cv, Static):
                    return [(cv.fn if cv.kind == 'static' else BM(o, cv.fn), s)]
                return [(cv, s)]
            if name in ('__name__', '__qualname__'):
                return [(C(o.cls.name), s)]
            if name == '__new__':
                return [(BX(o, '__new__'), s)]
            return [(self.err('AttributeError', 'type object %r has no attribute %r' % (o.cls.name, name), n), s)]
        if isinstance(o, Mod):
            env = s.get(self.mods[o.name]) if o.name in self.mods else None
            if env is not None and name in env.vars:
                return [(env.vars[name], s)]
            if self.modfile(o.name + '.' + name):
                self.load(o.name + '.' + name)
                return [(Mod(o.name + '.' + name), s)]
            return [(self.err('AttributeError', 'module %s has no attribute %r' % (o.name, name), n), s)]
        if isinstance(o, Super):
            mro = self.inst(o.self_, s).cls.mro() if self.inst(o.self_, s) else []
            if o.cls in mro:
                for c in mro[mro.index(o.cls) + 1:]:
                    if name in c.attrs:
                        cv = c.attrs[name]
                        if isinstance(cv, Prop):
                            return self.call(cv.fget, [o.self_], {}, s, n)
                        return [(self.bind(cv, o.self_, c), s)]
            if name == '__init__':
                return [(BX(o, '__init__'), s)]
            return [(self.err('AttributeError', 'super object has no attribute %r' % name, n), s)]
        if isinstance(o, (Fn, BM)):
            f = o if isinstance(o, Fn) else o.fn
            if name in ('__name__', '__qualname__'):
                return [(C(getattr(f, 'name', '')), s)]
            if name == '__doc__':
                return [(N('str', tm.fresh('doc')), s)]
            return [(Top(), s)]
        if isinstance(o, Prop):
            return [(BX(o, name), s)]
        return self.ext.getattr_(self, o, name, s, n)

    def bind(self, cv, o, cls):
        if isinstance(cv, Fn):
            return BM(o, cv)
        if isinstance(cv, Static):
            return cv.fn if cv.kind == 'static' else BM(K(cls), cv.fn)
        return cv

    def setattr_(self, o, name, v, s, n):
        if isinstance(o, UV):
            return self.split(o, s, lambda a, t: self.setattr_(a, name, v, t, n))
        if isinstance(o, R):
            h = s.heap[o.id]
            if isinstance(h, HInst):
                cv = h.cls.find(name)
                if isinstance(cv, Prop):
                    if cv.fset is None:
                        return [(self.err('AttributeError', "property %r of %r object has no setter" % (name, h.cls.name), n), s)]
                    out = []
                    for r, t in self.call(cv.fset, [o, v], {}, s, n):
                        out.append((r if isinstance(r, Raise) else None, t))
                    return out
                s.mut(o.id).attrs[name] = v
                self.note_write(o, s, n)
                return [(None, s)]
        if isinstance(o, K):
            if self.fnstack:
                s.event('class-write', o.cls.name, name, self.where(n))
            o.cls.attrs[name] = v
            for f in (v, getattr(v, 'fget', None)):
                if isinstance(f, Fn) and f.cls is None:
                    f.cls = o.cls
            return [(None, s)]
        if isinstance(o, Mod):
            s.mut(self.mods[o.name]).vars[name] = v
            s.event('global-write', o.name, name, self.where(n))
            return [(None, s)]
        if isinstance(o, X):
            s.event('ext-write', o.path, name, self.where(n))
        if isinstance(o, A) and name == 'shape':
            return [(None, s)]
        return [(None, s)]

    def note_write(self, o, s, n):
        """record mutation of an object that existed before the analysed call"""
        if isinstance(o, R):
            s.writes.setdefault(o.id, self.where(n))

    # subscripts ------------------------------------------------------
    def e_Subscript(self, n, s):
        out = []
        for vals, t in self.seq([n.value, n.slice], s):
            if isinstance(vals, Raise):
                out.append((vals, t))
            else:
                out += self.getitem_(vals[0], vals[1], t, n)
        return out

    def getitem_(self, o, k, s, n):
        if isinstance(o, UV):
            return self.split(o, s, lambda a, t: self.getitem_(a, k, t, n))
        if isinstance(k, UV):
            return self.split(k, s, lambda a, t: self.getitem_(o, a, t, n))
        h = self.inst(o, s)
        if h is not None:
            m = h.cls.find('__getitem__')
            if m is None:
                return [(self.err('TypeError', '%r object is not subscriptable' % h.cls.name, n), s)]
            return self.call(BM(o, m), [k], {}, s, n)
        if self.maskfork and isinstance(o, A) and isinstance(k, A) and k.dtype == 'bool':
            r = self.mask_cases(k, s)
            if r is not None:
                return [x for m, t in r for x in self.ext.getitem(self, o, m, t, n)]
        return self.ext.getitem(self, o, k, s, n)

    def mask_cases(self, k, s):
        """[(constant mask, state)] for a mask with few undecided entries"""
        t = self.ext.num(k, s)[0]
        if t.op != 'lit' or not 0 < sum(e.op != 'const' for e in t.args) <= self.maskfork:
            return None
        out = [((), s)]
        for e in t.args:
            new = []
            for bs, u in out:
                for b, w in self.branch(self.ext.as_cond(N('bool', e)), u):
                    new.append((bs + (tm.ONE if b else tm.ZERO,), w))
            out = new
        return [(u.new_arr(tm.lit(bs, t.shape), 'bool'), u) for bs, u in out]

    def setitem_(self, o, k, v, s, n):
        if isinstance(o, UV):
            return self.split(o, s, lambda a, t: self.setitem_(a, k, v, t, n))
        if isinstance(k, UV):
            return self.split(k, s, lambda a, t: self.setitem_(o, a, v, t, n))
        if isinstance(v, UV) and isinstance(o, A):
            return self.split(v, s, lambda a, t: self.setitem_(o, k, a, t, n))
        h = self.inst(o, s)
        if h is not None:
            m = h.cls.find('__setitem__')
            if m is None:
                return [(self.err('TypeError', '%r object does not support item assignment' % h.cls.name, n), s)]
            return [(r if isinstance(r, Raise) else None, t) for r, t in self.call(BM(o, m), [k, v], {}, s, n)]
        return self.ext.setitem(self, o, k, v, s, n)

    # iteration -------------------------------------------------------
    def iterate(self, v, s, n, want=None):
        """-> [(items list | ('unk', elem, len) | None | Raise, S)]"""
        if isinstance(v, UV):
            return self.split(v, s, lambda a, t: self.iterate(a, t, n, want))
        if isinstance(v, Tu):
            return [(list(v.items), s)]
        if isinstance(v, R):
            h = s.heap[v.id]
            if isinstance(h, HList):
                if h.items is not None:
                    return [(list(h.items), s)]
                return [(('unk', h.elem if h.elem is not None else Top(), h.length), s)]
            if isinstance(h, HDict):
                if not h.open_:
                    return [([k for k, _ in h.items.values()], s)]
                return [(('unk', Top(), None), s)]
            if isinstance(h, HSet):
                if not h.open_:
                    return [(list(h.items), s)]
                return [(('unk', Top(), None), s)]
            if isinstance(h, HInst):
                m = h.cls.find('__iter__')
                if m is not None:
                    out = []
                    for r, t in self.call(BM(v, m), [], {}, s, n):
                        if isinstance(r, Raise):
                            out.append((r, t))
                        elif r == v:
                            out.append((('unk', Top(), None), t))
                        else:
                            out += self.iterate(r, t, n, want)
                    return out
                if h.cls.find('__getitem__') is not None:
                    return [(('unk', Top(), None), s)]
                return [(self.err('TypeError', '%r object is not iterable' % h.cls.name, n), s)]
        return self.ext.iterate(self, v, s, n, want)

    def list_elem(self, h):
        if h.items is None:
            return h.elem if h.elem is not None else Top()
        if not h.items:
            return None
        e = h.items[0]
        for x in h.items[1:]:
            if x != e:
                if isinstance(e, (C, N)) and isinstance(x, (C, N)) and num_kind(e) and num_kind(e) == num_kind(x):
                    e = N(num_kind(e), tm.fresh('el'))
                else:
                    e = union([e, x])
        return e

    # comprehensions ----------------------------------------------------
    def _comp(self, n, s, elts, finish):
        saved = s.env
        outer = s.get(saved)
        targets = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    targets.add(x.id)
        env = HEnv({}, saved, frozenset(), outer.mod, '<comp>')
        s.env = s.alloc(env)
        eid = s.env

        def rec(gi, st):
            """-> [(list of elt tuples | ('unk', vals) | Raise, S)]"""
            if gi == len(n.generators):
                out = []
                for vals, t in self.seq(elts, st):
                    out.append((vals if isinstance(vals, Raise) else [tuple(vals)], t))
                return out
            g = n.generators[gi]
            res = []
            for it, t in self.ev(g.iter, st):
                if isinstance(it, Raise):
                    res.append((it, t))
                    continue
                for items, t2 in self.iterate(it, t, n):
                    if isinstance(items, Raise):
                        res.append((items, t2))
                        continue
                    unk = items is None or isinstance(items, tuple)
                    if unk:
                        el = items[1] if items else Top()
                        seqs = [self.refresh(el, t2)]
                    else:
                        seqs = items
                    cur = [([], t2)]
                    for x in seqs:
                        nx = []
                        for acc, u in cur:
                            if isinstance(acc, Raise):
                                nx.append((acc, u))
                                continue
                            for r, w in self.assign(g.target, x, u):
                                if isinstance(r, Raise):
                                    nx.append((r, w))
                                    continue
                                conds = [(True, w)]
                                for c in g.ifs:
                                    nc = []
                                    for ok, q in conds:
                                        if isinstance(ok, Raise) or not ok:
                                            nc.append((ok, q))
                                        else:
                                            nc += self.cond(c, q)
                                    conds = nc
                                for ok, q in conds:
                                    if isinstance(ok, Raise):
                                        nx.append((ok, q))
                                    elif not ok:
                                        nx.append((acc, q))
                                    else:
                                        for sub, z in rec(gi + 1, q):
                                            if isinstance(sub, Raise):
                                                nx.append((sub, z))
                                            elif isinstance(sub, tuple) or isinstance(acc, tuple):
                                                vs = (list(acc[1]) if isinstance(acc, tuple) else acc) + \
                                                     (list(sub[1]) if isinstance(sub, tuple) else sub)
                                                nx.append((('unk', vs), z))
                                            else:
                                                nx.append((acc + sub, z))
                        cur = nx
                        if len(cur) > self.cap:
                            # join partitions: unknown length list of what we saw
                            rs = [c for c in cur if isinstance(c[0], Raise)][:4]
                            ok = [c for c in cur if not isinstance(c[0], Raise)]
                            groups = {}
                            for acc, u in ok:
                                L = len(acc[1]) if isinstance(acc, tuple) else len(acc)
                                groups.setdefault((isinstance(acc, tuple), L), []).append((acc, u))
                            cur = []
                            for (ist, L), gs in groups.items():
                                a0, u0 = gs[0]
                                v0 = Tu([Tu(x) for x in (a0[1] if ist else a0)])
                                for a1, u1 in gs[1:]:
                                    v1 = Tu([Tu(x) for x in (a1[1] if ist else a1)])
                                    v0, u0 = join_states(u0, u1, v0, v1)
                                if isinstance(v0, Tu):
                                    its = [tuple(x.items) if isinstance(x, Tu) else (Top(),) * len(elts) for x in v0.items]
                                else:
                                    its = [(Top(),) * len(elts)] * L
                                cur.append((('unk', its) if ist else its, u0))
                            cur += rs
                    if unk:
                        cur = [((c if isinstance(c, Raise) else ('unk', c[1] if isinstance(c, tuple) else c)), u) for c, u in cur]
                    res += cur
            return res
        out = []
        for r, t in rec(0, s):
            t.env = saved
            t.heap.pop(eid, None) if False else None
            if isinstance(r, Raise):
                out.append((r, t))
            else:
                out.append((finish(r, t), t))
        return out

    def e_ListComp(self, n, s):
        def fin(r, t):
            if isinstance(r, tuple):
                es = [x[0] for x in r[1]]
                e = None
                for x in es:
                    e = x if e is None else union([e, x])
                return t.unk_list(e if e is not None else Top())
            return t.new_list([x[0] for x in r])
        return self._comp(n, s, [n.elt], fin)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, s):
        def fin(r, t):
            if isinstance(r, tuple):
                return R(t.alloc(HSet([], True)))
            its = []
            for x in r:
                if x[0] not in its:
                    its.append(x[0])
            return R(t.alloc(HSet(its)))
        return self._comp(n, s, [n.elt], fin)

    def e_DictComp(self, n, s):
        def fin(r, t):
            if isinstance(r, tuple):
                return R(t.alloc(HDict({}, True)))
            return t.new_dict([(k, v) for k, v in r])
        return self._comp(n, s, [n.key, n.value], fin)

    # calls -------------------------------------------------------------
    def e_Call(self, n, s):
        out = []
        for f, t in self.ev(n.func, s):
            if isinstance(f, Raise):
                out.append((f, t))
                continue
            if isinstance(f, X) and f.path == 'builtins.super' and not n.args:
                out.append(self.make_super(t))
                continue
            star = any(isinstance(a, ast.Starred) for a in n.args)
            args = self.starseq(n.args, t) if star else self.seq(n.args, t)
            for av, u in args:
                if isinstance(av, Raise):
                    out.append((av, u))
                    continue
                if av is None:
                    out.append((Top(), u))
                    u.vague += 1
                    continue
                for kv, w in self.seq([k.value for k in n.keywords], u):
                    if isinstance(kv, Raise):
                        out.append((kv, w))
                        continue
                    kw = {}
                    bad = False
                    for k, v in zip(n.keywords, kv):
                        if k.arg is not None:
                            bad = bad or k.arg in kw and k.arg
                            kw[k.arg] = v
                        else:
                            h = w.heap.get(v.id) if isinstance(v, R) else None
                            if isinstance(h, HDict):
                                for kk, vv in h.items.values():
                                    if isinstance(kk, C) and isinstance(kk.v, str):
                                        bad = bad or kk.v in kw and kk.v
                                        kw[kk.v] = vv
                                if h.open_:
                                    kw['**'] = TRUE
                            else:
                                kw['**'] = TRUE
                    if bad:
                        out.append((self.err('TypeError', 'got multiple values for keyword argument %r' % bad, n), w))
                        continue
                    out += self.call(f, av, kw, w, n)
        return out

    def make_super(self, s):
        fn = self.fnstack[-1] if self.fnstack else None
        e = s.get(s.env)
        if fn is None or fn.cls is None or not fn.node.args.args:
            return (Top(), s)
        return (Super(e.vars.get(fn.node.args.args[0].arg), fn.cls), s)

    def call(self, f, args, kw, s, n):
        if isinstance(f, UV):
            return self.split(f, s, lambda a, t: self.call(a, args, kw, t, n))
        if isinstance(f, BM):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self_] + args, kw, s, n)
            return self.call(f.fn, [f.self_] + args, kw, s, n)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, s, n)
        if isinstance(f, K):
            return self.construct(f, args, kw, s, n)
        if isinstance(f, Partial):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + args, k2, s, n)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw, s, n)
        h = self.inst(f, s)
        if h is not None:
            m = h.cls.find('__call__')
            if m is None:
                return [(self.err('TypeError', '%r object is not callable' % h.cls.name, n), s)]
            return self.call(BM(f, m), args, kw, s, n)
        if isinstance(f, (X, BX, XO, Top)):
            # arguments that may be one of several values: split
            for i, a in enumerate(args):
                if isinstance(a, UV):
                    return self.split(a, s, lambda x, t, i=i: self.call(f, args[:i] + [x] + args[i + 1:], kw, t, n))
            for k, a in kw.items():
                if isinstance(a, UV):
                    return self.split(a, s, lambda x, t, k=k: self.call(f, args, {**kw, k: x}, t, n))
            return self.ext.call(self, f, args, kw, s, n)
        return [(self.err('TypeError', '%s object is not callable' % self.tname(f, s), n), s)]

    def construct(self, k, args, kw, s, n):
        cls = k.cls
        if cls.is_exception():
            return [(XO('exc:' + self.user_exc(cls)), s)]
        o = R(s.alloc(HInst(cls, {})))
        new = cls.find('__new__')
        m = cls.find('__init__')
        if new is not None:
            f = new.fn if isinstance(new, Static) else new
            out = []
            for v, t in self.call(f, [k] + args, kw, s, n):
                if isinstance(v, Raise):
                    out.append((v, t))
                elif m is not None and self.inst(v, t) is not None and cls in self.inst(v, t).cls.mro():
                    for r, u in self.call(BM(v, m), args, kw, t, n):
                        out.append((r if isinstance(r, Raise) else v, u))
                else:
                    out.append((v, t))
            return out
        if m is None:
            return [(o, s)]
        out = []
        for r, t in self.call(BM(o, m), args, kw, s, n):
            out.append((r if isinstance(r, Raise) else o, t))
        return out

    def qual(self, f):
        return (f.cls.name + '.' if f.cls is not None else '') + f.name

    def call_fn(self, f, args, kw, s, n):
        q = self.qual(f)
        sm = self.summaries.get(q)
        if sm is not None and (f.cls is not None or f.env is None or s.heap.get(f.env) is None or s.heap[f.env].fn is None):
            r = sm(self, f, args, kw, s, n)
            if r is not None:
                return r
        if self.depth > 60:
            return [(self.err('RecursionError', 'maximum recursion depth exceeded in ' + q, n), s)]
        if f.info.gen:
            return [(XO('generator'), s)]
        a = f.node.args
        pos = a.posonlyargs + a.args
        vars_ = {}
        extra = None
        if len(args) > len(pos):
            if a.vararg is None:
                return [(self.err('TypeError', '%s() takes %d positional arguments but %d were given' % (q, len(pos), len(args)), n), s)]
            extra = args[len(pos):]
        for p, v in zip(pos, args):
            vars_[p.arg] = v
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        kwextra = {}
        openkw = False
        for k, v in kw.items():
            if k == '**':
                openkw = True
                continue
            if k in names:
                if k in vars_:
                    return [(self.err('TypeError', '%s() got multiple values for argument %r' % (q, k), n), s)]
                vars_[k] = v
            elif a.kwarg is not None:
                kwextra[k] = v
            else:
                return [(self.err('TypeError', '%s() got an unexpected keyword argument %r' % (q, k), n), s)]
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in vars_:
                di = i - (len(pos) - nd)
                if di >= 0:
                    vars_[p.arg] = f.defaults[di]
                elif openkw:
                    vars_[p.arg] = Top()
                else:
                    return [(self.err('TypeError', '%s() missing required argument %r' % (q, p.arg), n), s)]
        for p in a.kwonlyargs:
            if p.arg not in vars_:
                if p.arg in f.kwdefaults:
                    vars_[p.arg] = f.kwdefaults[p.arg]
                elif openkw:
                    vars_[p.arg] = Top()
                else:
                    return [(self.err('TypeError', '%s() missing keyword-only argument %r' % (q, p.arg), n), s)]
        if a.vararg is not None:
            vars_[a.vararg.arg] = Tu(extra or [])
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = s.new_dict([(C(k), v) for k, v in kwextra.items()], openkw)
        saved = s.env
        eid = s.alloc(HEnv(vars_, f.env, f.info.locals, f.mod, f, tuple(f.info.globals_), tuple(f.info.nonlocals)))
        s.env = eid
        self.visited.add((f.mod, q))
        if self.trace_calls is not None:
            self.trace_calls(f, args, kw, s, n)
        self.fnstack.append(f)
        self.floors.append(new_id())
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                res = self.ev(f.node.body, s)
            else:
                norm, oth = self.block(f.node.body, [s])
                res = [(NONE, t) for t in norm]
                for k, p, t in oth:
                    if k == 'return':
                        res.append((p, t))
                    elif k == 'raise':
                        res.append((p, t))
                    else:
                        res.append((NONE, t))
        finally:
            self.depth -= 1
            self.fnstack.pop()
            self.floors.pop()
        for _, t in res:
            t.env = saved
            if not f.info.closures:
                t.heap.pop(eid, None)
        if len(res) > 1:
            good = [x for x in res if not isinstance(x[0], Raise)]
            bad = [x for x in res if isinstance(x[0], Raise)]
            if len(bad) > self.cap:
                seen, keep = {}, []
                for r, t in bad:
                    k = (r.exc, id(r.node), r.may)
                    seen[k] = seen.get(k, 0) + 1
                    if seen[k] <= 2:
                        keep.append((r, t))
                bad = keep
            res = self.reduce_vals(good) + bad
        return res
