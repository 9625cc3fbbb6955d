"""C05 no public call modifies the objects it is given."""
from .calls import *

RULE = ('effect analysis: every public function, constructor, operator, property and method is interpreted on abstract '
        'arguments; the contents of every array buffer, list, dict and model reachable from an argument must have the '
        'same value numbers in every final abstract state (returning or raising) as before the call; the receiver of a '
        'property assignment is exempt')
ANCHORS = ('State', 'Transfer', 'feedback', 'lyapunov_eq_solver', 'simulate_linear_system', 'frequency_response',
           'staircase', 'transmission_zeros', 'haroldsvd', 'lqr', 'ackermann', 'discretize', 'undiscretize')
MIN = {'quick': 700}
INLINE = ('staircase', 'transmission_zeros', 'haroldlcm', 'cancellation_distance')
CASE_SECONDS = 60


def cases(tier):
    out = [c for c in catalogue(tier) if not light(c)]
    for fn in ('staircase', 'transmission_zeros', 'haroldlcm', 'cancellation_distance'):
        for c in catalogue(tier):
            if c.fn == fn and 'array3x3' not in c.label:
                c.kind = 'inline'
                c.label += ' [body]'
                out.append(c)
    return out


def light(c):
    return c.fn == 'getattr' and c.meth in ('shape', 'SamplingPeriod', 'SamplingSet', 'NumberOfInputs',
                                            'NumberOfOutputs', 'NumberOfStates')


def name(c):
    return c.label


def reach(v, s, path, out):
    """heap id -> access path of everything an argument consists of"""
    if isinstance(v, A):
        out.setdefault(v.buf, path)
    elif isinstance(v, Tu):
        for i, x in enumerate(v.items):
            reach(x, s, '%s[%d]' % (path, i), out)
    elif isinstance(v, UV):
        for x in v.alts:
            reach(x, s, path, out)
    elif isinstance(v, R):
        if v.id in out:
            return
        h = s.heap.get(v.id)
        out[v.id] = path
        if isinstance(h, HList):
            for i, x in enumerate(h.items or ([h.elem] if h.elem is not None else [])):
                reach(x, s, '%s[%d]' % (path, i), out)
        elif isinstance(h, HDict):
            for k, (kv, x) in h.items.items():
                reach(x, s, '%s[%s]' % (path, k[-1]), out)
        elif isinstance(h, HInst):
            for k, x in h.attrs.items():
                reach(x, s, '%s.%s' % (path, k), out)


def same_val(x, y, s0, s1, d=0):
    if x == y:
        return True
    if isinstance(x, A) and isinstance(y, A):
        return x.shape == y.shape and tm.same(term(x, s0), term(y, s1))
    if isinstance(x, Tu) and isinstance(y, Tu) and len(x.items) == len(y.items):
        return all(same_val(a, b, s0, s1, d + 1) for a, b in zip(x.items, y.items))
    if isinstance(x, (C, N)) and isinstance(y, (C, N)):
        return eqv(x, y, s1) is True
    if isinstance(x, R) and isinstance(y, R) and d < 4:
        h, k = s0.heap.get(x.id), s1.heap.get(y.id)
        if isinstance(h, HList) and isinstance(k, HList) and h.items is not None and k.items is not None:
            return len(h.items) == len(k.items) and all(same_val(a, b, s0, s1, d + 1) for a, b in zip(h.items, k.items))
    if isinstance(y, (Top, UV)):
        return None
    return False


def changes(before, s0, s1):
    """[(path, what)] for objects whose contents differ"""
    out = []
    for i, path in before.items():
        h, k = s0.heap.get(i), s1.heap.get(i)
        if h is k or k is None:
            continue
        if isinstance(h, HBuf):
            if h.term is not k.term and not tm.same(h.term, k.term):
                out.append((path, 'array contents'))
        elif isinstance(h, HList):
            if h.items is None or k.items is None:
                if h.items is not k.items:
                    out.append((path, 'list contents'))
            elif len(h.items) != len(k.items) or any(same_val(a, b, s0, s1) is False for a, b in zip(h.items, k.items)):
                out.append((path, 'list contents'))
        elif isinstance(h, HDict):
            if set(h.items) != set(k.items) or any(same_val(h.items[q][1], k.items[q][1], s0, s1) is False for q in h.items):
                out.append((path, 'dict contents'))
        elif isinstance(h, HInst):
            for q, x in h.attrs.items():
                if q not in k.attrs or same_val(x, k.attrs[q], s0, s1) is False:
                    out.append((path + '.' + q, 'attribute'))
    return out


def run_case(I, s, c):
    saved = I.summaries
    if c.kind != 'inline':
        I.summaries = dict(saved)
        I.summaries.update(SUMMARIES)
    try:
        av, kv, s = prepare(I, s, c)
        names = ['argument %d' % (i + 1) for i in range(len(av))]
        before = {}
        for i, v in enumerate(av):
            if not (c.fn == 'setattr' and i == 0):
                reach(v, s, names[i], before)
        for k, v in kv.items():
            reach(v, s, k, before)
        if c.fn == 'setattr':
            own = {}
            reach(av[0], s, '', own)
            before = {k: v for k, v in before.items() if k not in own}
        s0 = s.fork()
        rs = invoke(I, s, c, av, kv)
        V = Verdict()
        for v, t in rs:
            ch = changes(before, s0, t)
            if not ch:
                V.ok('unchanged') if definite(t) else V.ok('unchanged on an imprecise path')
            elif not definite(t):
                V.und('imprecise path')
            else:
                w = t.writes
                V.bad('%s of %s changed by the call' % (ch[0][1], ch[0][0]), fname(c))
        return res(c.label, V, fname(c))
    finally:
        I.summaries = saved


def fname(c):
    if c.fn in ('getattr', 'setattr', 'method', 'binop', 'static'):
        k = 'State' if any(isinstance(a, tuple) and a[0] in ('S', 'Sg') for a in c.args) else 'Transfer'
        return 'harold/_classes.py:%s.%s' % (k, c.meth if not isinstance(c.meth, tuple) else c.meth[1])
    return 'harold:%s' % c.fn
