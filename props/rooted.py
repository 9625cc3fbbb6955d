"""Transfer models whose roots are fixed in advance; the gains are value numbers."""
from .ops import *


def monic(zs):
    """real coefficients of the polynomial with these roots, pairs next to each other"""
    out, zs = [1.0], list(zs)
    while zs:
        z = zs.pop(0)
        if isinstance(z, complex):
            zs.remove(z.conjugate())
        f = [1.0, -2 * z.real, abs(z) ** 2 if abs(z.imag) > 1e-6 else z.real ** 2] if isinstance(z, complex) else [1.0, -float(z)]
        if isinstance(z, complex) and abs(z.imag) > 1e-6:
            f[2] = z.real ** 2 + z.imag ** 2
        out = [sum(out[i] * f[k - i] for i in range(len(out)) if 0 <= k - i < len(f)) for k in range(len(out) + len(f) - 1)]
    return [tm.const(q) for q in out]


def rooted(I, s, sp, p, m, dt, name='k'):
    """-> (model, state, gains, [(monic coefficients, roots)]); `sp` lists the roots of the entries, row by row"""
    ns, ds, ks, fx = [], [], [], {}
    for i, (zz, pp) in enumerate(x[:2] for x in sp):
        k, q = tm.leaf('%s%d' % (name, i), (), ('nonzero',)), tm.leaf('%sq%d' % (name, i), (), ('nonzero',))
        for zs in (zz, pp):
            if zs:
                fx.setdefault((tuple(zs)), (monic(zs), [tm.const(z) for z in zs]))
        ns.append([tm.arith('mul', k, x) for x in monic(zz)])
        ds.append([tm.arith('mul', q, x) for x in monic(pp)])
        ks.append(tm.arith('div', k, q))
    vec = lambda l: s.new_arr(tm.lit(l, (1, len(l))), 'float', (1, len(l)))
    nest = lambda l: vec(l[0]) if p * m == 1 else s.new_list([s.new_list([vec(x) for x in l[r * m:r * m + m]]) for r in range(p)])
    saved, I.general = I.general, False
    g, s = good(call(I, 'Transfer', [nest(ns), nest(ds)], {'dt': C(dt)} if dt else {}, s), 'Transfer')
    I.general = saved
    return g, s, ks, list(fx.values())


# an uncancelled entry, a cancellation, a full cancellation, a gain
FEW = (((-2,), (-1, -3)), ((-2,), (-2, -4)), ((-3,), (-3,)), ((), ()))
