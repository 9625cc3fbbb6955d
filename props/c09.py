"""C09 undiscretize inverts discretize."""
from .disc import *

RULE = ('value numbering: discretizing a model and undiscretizing the result with the same method (named again or remembered by the '
        'model) gives the transfer matrix of the original model, compared by random interpretation; logarithms are interpreted as the '
        'inverse of the exponentials that occur')
ANCHORS = ('discretize', 'undiscretize')
MIN = {'quick': 200}
WAYS = ('named', 'remembered')


def cases(tier):
    out = []
    for g in shapes() + tshapes():
        for m, pw in methods():
            for w in WAYS:
                if w == 'named' and m == 'lft':
                    continue
                out.append((g, m, pw, w))
    return out


def name(c):
    return 'undiscretize(discretize(%s, T, %s)%s)' % (sname(c[0]), mname(c[1], c[2]), ', same method' if c[3] == 'named' else '')


def run_case(I, s, c):
    g, m, pw, way = c
    a, s = build(I, s, g, 'a')
    want = gz(I, a, s)
    kw, q = args_of(I, s, m, pw)
    rs, where = [], W + 'undiscretize'
    I.eqbudget = 0
    for v, t in call(I, 'discretize', [a, N('float', T_)], kw, s):
        if isinstance(v, Raise):
            continue
        k2 = {k: x for k, x in kw.items() if k != 'q'} if way == 'named' else {}
        I.eqbudget = 1
        rs += call(I, 'undiscretize', [v], k2, t)
    return res(name(c), judge_values(I, rs, value_pred(I, want, 'the model after the round trip'), where), where)
