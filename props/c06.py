"""C06 a model owns its data."""
from .calls import *
from .c05 import reach, fname
from .ops import bin_expect

RULE = ('ownership analysis: for every call that builds a model (constructors with arrays and lists, property assignment, '
        'operators, negation, indexing, conversion, realization, discretization, feedback) the set of array buffers and '
        'lists reachable from the resulting model must be disjoint from those reachable from the arguments')
ANCHORS = ('State', 'Transfer', 'feedback', 'state_to_transfer', 'transfer_to_state', 'minimal_realization',
           'hessenberg_realization', 'kalman_decomposition', 'discretize', 'undiscretize')
MIN = {'quick': 150}
MODELS = ('State', 'Transfer')
FNS = ('State', 'Transfer', 'feedback', 'state_to_transfer', 'transfer_to_state', 'minimal_realization',
       'hessenberg_realization', 'kalman_decomposition', 'discretize', 'undiscretize', 'binop', 'setattr')


def cases(tier):
    out = []
    for c in catalogue(tier):
        if c.fn in FNS or (c.fn == 'method' and c.meth in ('__neg__', '__getitem__')):
            if c.kw.get('output') == 'matrices':
                continue
            if c.fn == 'binop' and any(len(oshape(x)) == 1 for x in c.args) and bin_expect(c.meth, *c.args)[0] != 'must':
                continue
            out.append(c)
    for m in (('S', 2, 2, 2, None), ('Sg', 2, 2, None), ('T', 2, 2, None), ('Tg', 2, 2, None), ('S', 2, 1, 1, None),
              ('T', 1, 1, None), ('Tg', 1, 1, None), ('Sg', 1, 1, None), ('S', 2, 2, 1, None), ('T', 1, 2, None)):
        for key in ((slc(), slc()), (slc(), C(0)), (C(0), slc())):
            out.append(Call('index', (m,), {}, key))
            out[-1].label = '%s[%s]' % (sname(m), ','.join('0' if isinstance(k, C) else ':' for k in key))
    return out


def name(c):
    return c.label


def handed_back(c):
    """the two documented cases where the operand itself is the result: any selection of a SISO Transfer is the whole
    model, and decomposing a static gain has nothing to do"""
    a = c.args[0]
    if c.fn == 'kalman_decomposition':
        return isgain(a)
    return c.fn == 'index' and not isstate(a) and oshape(a) == (1, 1) or \
        c.fn == 'method' and c.meth == '__getitem__' and not isstate(a) and oshape(a) == (1, 1)


def storage(v, s):
    """buffers and lists holding the data of a value"""
    d = {}
    reach(v, s, '', d)
    out = {}
    for i, p in d.items():
        h = s.heap.get(i)
        if isinstance(h, HBuf) and not (h.term.shape is not None and tm.conc(h.term.shape) and tm.nelem(h.term.shape) == 0):
            out[i] = p
        elif isinstance(h, HList) and (h.items is None or h.items):
            out[i] = p
    return out


def run_case(I, s, c):
    if c.fn == 'index':
        av, kv, s = prepare(I, s, c)
        args = storage(av[0], s)
        rs = getitem(I, s, av[0], Tu(c.meth))
    else:
        av, kv, s = prepare(I, s, c)
        args = {}
        for i, v in enumerate(av):
            if c.fn == 'setattr' and i == 0:
                continue
            for k, p in storage(v, s).items():
                args.setdefault(k, 'argument %d%s' % (i + 1, p))
        for q, v in kv.items():
            for k, p in storage(v, s).items():
                args.setdefault(k, '%s%s' % (q, p))
        rs = invoke(I, s, c, av, kv)
    where = fname(c) if c.fn != 'index' else 'harold/_classes.py:%s.__getitem__' % ('State' if isstate(c.args[0]) else 'Transfer')

    def pred(v, t):
        m = av[0] if c.fn == 'setattr' else v
        if isinstance(m, Tu):
            m = m.items[0]
        if cls_of(m, t) not in MODELS:
            return None, 'result is not a model'
        if any(isinstance(x, R) and x.id == m.id for x in av) and c.fn != 'setattr':
            if handed_back(c):
                return True, 'the operand itself is handed back'
            return False, 'the result is the operand object itself'
        st = storage(m, t)
        both = [(p, args[i]) for i, p in st.items() if i in args]
        if not both:
            return True, 'no shared storage'
        return False, 'the data at %s of the model is the storage of %s' % (both[0][0] or '.', both[0][1])

    return res(c.label, judge_values(I, rs, pred, where), where)
