"""C11: the consistency checks answer truthfully."""
import oracle as O
from checks.common import *   # noqa
from checks.C10 import le, begin, ready, point, tot
from harness import Scenario
from fractions import Fraction

BOUNDS = ("points of 2 to 5 legs, each an arbitrary rank-two spinor (symbolic for up to three legs at a time), total momentum arbitrary; tolerance symbolic; outlier "
          "classification of up to 4 invariants with arbitrary values, and of the default list at 2 and 3 legs; fields of characteristic 0 and p")
OUTSIDE = "p-adic numbers; printed reports; values within 1 % of the thresholds 10^-8 and 10^8 of the outlier classification"
ASSUMPTIONS = STD + ["the tolerance of the field is a non-negative number (zero for a finite field)", "an element of a finite field which is not zero has absolute value 1"]


def same(H, label, got, cnd):
    """Python bool `got` equals the condition"""
    H.true(label, (got is True or got is False) or type(got).__name__ in ('bool_', 'bool'), 'not a boolean: %r' % (type(got),))
    H.true(label + (': says yes' if got else ': says no'), cnd if got else ~cnd)


def unit(H, x):
    """values of a finite field: zero, or not small"""
    if H.symbolic:
        H.assume(H.cond_eq(x, 0) | (abs(x) >= 1))


def conservation(n, free, field):
    def body(H):
        import lips
        tol = begin(H, field)
        ps, dn = [], []
        for i in range(1, n + 1):
            m = [[H.var('P%d%d%d' % (i, a, b)) if i in free else H.const((i * i * 3 + a * 5 - b * 7 * i) % 11 - 5 or 1) for b in range(2)] for a in range(2)]
            ps.append(lips.Particle(obj(O.up_of_dn(m)), field=H.F)), dn.append(m)
        oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
        ready(H, tol)
        same(H, 'momentum conservation', oPs.momentum_conservation_check(), le(H, tot(dn), tol))
        H.eq('the point is untouched', obj([L(p.r2_sp_b) for p in oPs]), obj(dn))
    return body


def onshell(n, free, field):
    def body(H):
        import lips
        tol = begin(H, field)
        ps, dn = [], []
        for i in range(1, n + 1):
            if i in free:
                m = [[H.var('P%d%d%d' % (i, a, b)) for b in range(2)] for a in range(2)]
                ps.append(lips.Particle(obj(O.up_of_dn(m)), field=H.F))
            else:
                r, l = [H.const(i), H.const(2 - i)], [H.const(3), H.const(i + 1)]
                m = O.Pdn(r, l)
                ps.append(H.particle(r, l))
            dn.append(m)
        oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
        ready(H, tol)
        same(H, 'on-shell', oPs.onshell_relation_check(), le(H, [O.det2(m) for m in dn], tol))
    return body


def outliers(names, field, style):
    def body(H):
        import lips
        tol = begin(H, field)
        free = (1,)
        ps, dn = point(H, free)
        oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
        oPs.internal_masses = set()
        val = {}
        for k, m in enumerate(names):
            val[m] = H.var('x%d' % k)
            setattr(oPs, m, val[m])
            if field == 'finite field':
                unit(H, val[m] - 1 if style == 'difference' else val[m])
        ready(H, tol)
        req = [{'plain': '%s', 'times two': '2%s', 'difference': '%s-1'}[style] % m for m in names]
        asked = list(req)
        out = oPs.phasespace_consistency_check(req)
        H.true('four answers', len(out) == 4)
        mc, on, big, small = out
        H.true('the list of invariants handed in is untouched', req == asked)
        same(H, 'momentum conservation', mc, le(H, tot(dn), tol))
        same(H, 'on-shell', on, le(H, [O.det2(m) for m in dn], tol))
        H.true('no invariant is listed twice', len(set(small)) == len(small) and len(set(big)) == len(big) and set(small) | set(big) <= set(asked))
        for s, m in zip(asked, names):
            x = {'plain': lambda v: v, 'times two': lambda v: 2 * v, 'difference': lambda v: v - 1}[style](val[m])
            if field == 'finite field':
                z = H.cond_eq(x, 0)
                H.true('%s listed as small only if zero' % s if s in small else '%s not listed as small only if not zero' % s, z if s in small else ~z)
                continue
            lo, hi = Fraction(99, 100), Fraction(101, 100)
            sm, bg = Fraction(1, 10 ** 8), Fraction(10 ** 8)
            H.true('%s: small' % s, le(H, x, sm * hi) if s in small else ~le(H, x, sm * lo))
            H.true('%s: big' % s, ~le(H, x, bg * lo) if s in big else le(H, x, bg * hi))
    return body


def default(n, field):
    """without a list: all two-particle brackets"""
    def body(H):
        tol = begin(H, field)
        oPs, (r, l) = H.raw(n)
        ready(H, tol)
        K = O.Kin(r, l)
        for i in range(1, n + 1):
            for j in range(i + 1, n + 1):
                unit(H, K.a(i, j)), unit(H, K.s(i, j))
        out = oPs.phasespace_consistency_check()
        names = {}
        for i in range(1, n + 1):
            for j in range(i + 1, n + 1):
                names["⟨%d|%d⟩" % (i, j)] = K.a(i, j)
                names["[%d|%d]" % (i, j)] = K.s(i, j)
        H.true('names', set(out[3]) <= set(names), str(out[3]))
        for s, v in names.items():
            z = H.cond_eq(v, 0)
            H.true('%s listed as small iff zero' % s, z if s in out[3] else ~z)
        same(H, 'momentum conservation', out[0], le(H, tot(K.dn), tol))
        same(H, 'on-shell', out[1], le(H, [O.det2(m) for m in K.dn], tol))
    return body


def scenarios(tier):
    out = []
    c = with_convention('asymmetric')
    for fld in ('rational', 'finite field'):
        for n, free in ((2, (1,)), (2, (1, 2)), (3, (2,)), (3, (1, 3)), (4, (4,)), (5, (2, 5)), (5, (1,)), (4, (1, 2, 3))) + (() if tier == 'quick' else ((6, (1, 4, 6)), (8, (8,)), (7, (1,)), (5, (3, 4, 5)))):
            out.append(Scenario('momentum:%s:%d:%s' % (fld, n, free), conservation(n, free, fld), fields=[fld], setup=c))
            if len(free) < 3:
                out.append(Scenario('on-shell:%s:%d:%s' % (fld, n, free), onshell(n, free, fld), fields=[fld], setup=c))
        for names in (('mt',), ('mt', 'mb'), ('mt', 'mb', 'M')) + ((('mt', 'mb', 'M', 'm1'),) if tier != 'quick' else ()):
            for st in ('plain', 'times two', 'difference'):
                if len(names) > 2 and st != 'plain' and tier == 'quick':
                    continue
                out.append(Scenario('outliers:%s:%s:%s' % (fld, st, ','.join(names)), outliers(names, fld, st), fields=[fld], setup=c))
    out.append(Scenario('outliers:default:2', default(2, 'finite field'), fields=['finite field'], setup=c))
    if tier != 'quick':
        out.append(Scenario('outliers:default:3', default(3, 'finite field'), fields=['finite field'], setup=c, max_paths=4000))
    return out
