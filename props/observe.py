"""What a caller can observe of a model: its public attributes, frozen."""
from .formula import *

STATE_ATTRS = ('a', 'b', 'c', 'd', 'matrices', 'NumberOfStates')
TRANSFER_ATTRS = ('num', 'den', 'polynomials')
PUBLIC = ('poles', 'zeros', 'shape', 'NumberOfInputs', 'NumberOfOutputs', 'SamplingPeriod', 'SamplingSet', 'DiscretizedWith',
          'DiscretizationMatrix', 'PrewarpFrequency')
# decide what norms, products and conversions do with a model; compared where both models have them
FLAGS = ('_isstable', '_isgain', '_isSISO', '_isdiscrete')


def freeze(v, s):
    """immutable description of a value; None when it has none"""
    if isinstance(v, C):
        return ('c', v.v)
    if isinstance(v, (N, A)):
        t = term(v, s)
        return None if t is None else ('t', t)
    if isinstance(v, Tu):
        return ('s',) + tuple(freeze(x, s) for x in v.items)
    if isinstance(v, R):
        h = s.heap.get(v.id)
        if isinstance(h, HList) and h.items is not None:
            return ('s',) + tuple(freeze(x, s) for x in h.items)
    return None


def observe(I, v, s, skip=()):
    out = {}
    k = cls_of(v, s)
    for n in (STATE_ATTRS if k == 'State' else TRANSFER_ATTRS) + PUBLIC:
        if n in skip:
            continue
        try:
            out[n] = freeze(attr(I, v, s, n), s)
        except Undecided:
            out[n] = None
    h = s.heap[v.id]
    for n in FLAGS:
        if n in h.attrs:
            out[n] = freeze(h.attrs[n], s)
    out['class'] = ('c', k)
    return out


def fterm(x):
    if x[0] == 't':
        return x[1]
    if x[0] == 'c' and isinstance(x[1], (int, float, complex)) and not isinstance(x[1], bool):
        return tm.const(x[1])
    if x[0] == 's' and len(x) == 1:
        return tm.lit((), (0,))
    return None


def feq(x, y, s):
    """True / False / None"""
    if x is None or y is None:
        return None
    if x == y:
        return True
    if x[0] == 's' and y[0] == 's':
        if len(x) != len(y):
            return False
        r = [feq(a, b, s) for a, b in zip(x[1:], y[1:])]
        return False if False in r else None if None in r else True
    if x[0] == 'c' and y[0] == 'c':
        return x[1] == y[1]
    if (x[0] == 'c' and x[1] is None) or (y[0] == 'c' and y[1] is None):
        return False
    a, b = fterm(x), fterm(y)
    if a is None or b is None:
        return None
    if a.op == b.op == 'uf' and a.args[0] == b.args[0] == 'tzeros':
        # zeros of realizations of the same transfer matrix
        m = [u.args[1:] for u in (a, b)]
        if all(len(q) == 4 and all(t.shape is not None and tm.conc(t.shape) for t in q) for q in m):
            f, g = [state_term(*q) for q in m]
            return f.shape == g.shape and agree(s, f, g)
    if a.shape != b.shape:
        if a.shape is None or b.shape is None or not (tm.conc(a.shape) and tm.conc(b.shape)):
            return None
        return False
    if a is b or tm.nelem(a.shape) == 0:
        return True
    return agree(s, a, b)


def differ(o1, o2, s):
    """-> ([names that differ], [names not comparable])"""
    bad, unk = [], []
    for n in o1:
        if n not in o2:
            continue
        r = feq(o1[n], o2[n], s)
        if r is False:
            bad.append(n)
        elif r is None:
            unk.append(n)
    return bad, unk
