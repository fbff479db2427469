"""C10: a limit construction that returns has reached the limit; otherwise it raises.

The constructions themselves are replaced by an arbitrary outcome: invariants which no construction handles are requested (so that the
point stays an arbitrary symbolic one), or the inner solver is a stand-in which leaves an arbitrary symbolic point behind.  What is decided
is the acceptance logic: for every point the solver could leave behind, every target value and every tolerance."""
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin
from harness import Scenario

BOUNDS = ("the point left behind by the construction: 4 legs, each an arbitrary rank-two spinor (on or off shell), total momentum arbitrary, two of them symbolic at a time; "
          "target values and tolerance symbolic; requests of one and of two invariants; fields of characteristic 0 and p; the fallback solver succeeding, failing or raising")
OUTSIDE = "valuations over the p-adic numbers; what the fallback solver (Singular) computes; the printed messages"
ASSUMPTIONS = STD + ["the tolerance of the field is a non-negative number (zero for a finite field)"]
CONST = {1: [[3, 1], [-2, 5]], 2: [[-7, 4], [1, 2]], 3: [[1, -5], [6, 3]], 4: [[3, 0], [-5, -10]]}


def point(H, free, tag=''):
    """4 legs; those in `free` arbitrary, the others fixed integers (the fixed ones sum to zero when none is free)"""
    import lips
    ps, dn = [], []
    for i in range(1, 5):
        m = [[H.var('P%s%d%d%d' % (tag, i, a, b)) if i in free else H.const(CONST[i][a][b]) for b in range(2)] for a in range(2)]
        p = lips.Particle(obj(O.up_of_dn(m)), field=H.F)
        ps.append(p), dn.append(m)
    return ps, dn


def tot(dn):
    return [x for row in O.madd(*dn) for x in row]


def le(H, x, tol):
    if not isinstance(x, (list, tuple)):
        x = [x]
    r = None
    for y in x:
        c = abs(y) <= tol
        c = c if H.symbolic else T(bool(c))
        r = c if r is None else r & c
    return r


def T(b):
    from symx import TrueBool
    return TrueBool(b)




def begin(H, field):
    """symbolic tolerance in characteristic zero; it takes effect once the point is built"""
    H.field(field)
    if field == 'rational':
        tol = H.real('tol')
        H.assume(tol >= 0)
        return tol
    return 0


def ready(H, tol):
    if H.symbolic:
        H.F._tol = tol
    elif H.fieldname != 'finite field':
        H.F._fixed_tol = tol


EXPR = {'s_12-s_34': lambda d: O.det2(O.madd(d[0], d[1])) - O.det2(O.madd(d[2], d[3])), 'tr(1|2)': lambda d: O.tr(O.mat(O.up_of_dn(d[0]), d[1])),
        '2s_3': lambda d: 2 * O.det2(d[2]), 'tr(1|2)+s_4': lambda d: O.tr(O.mat(O.up_of_dn(d[0]), d[1])) + O.det2(d[3])}


def outcome(H, f):
    try:
        f()
        return True
    except Exception:
        return False


def verdict(H, label, returned, dn, tol, reached, shell=True):
    """returned normally iff conserved, on shell, reached"""
    cons = le(H, tot(dn), tol)
    on = le(H, [O.det2(m) for m in dn], tol)
    if returned:
        H.true(label + ': returned, so momentum is conserved', cons)
        H.true(label + ': returned, so every leg is on shell', on)
        for k, r in enumerate(reached):
            H.true(label + ': returned, so invariant %d has the requested value' % (k + 1), r)
    else:
        ok = cons & on
        for r in reached:
            ok = ok & r
        H.true(label + ': refused, so something is off', ~ok)


def legs_now(oPs):
    return [L(p.r2_sp_b) for p in oPs]


def single(s, field, free, via):
    def body(H):
        import lips
        tol = begin(H, field)
        ps, dn = point(H, free)
        oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
        ready(H, tol)
        v = H.var('v')
        if via == '_set':
            ret = outcome(H, lambda: oPs._set(s, v))
        else:
            ret = outcome(H, lambda: oPs.variety((s, ), (v, ), try_singular_variety_solver=False))
        H.eq('the point is what the construction left', obj(legs_now(oPs)), obj(dn))
        x = EXPR[s](dn)
        if via == '_set':
            verdict(H, s, ret, dn, tol, [le(H, x - v, tol)])
        elif field == 'rational':
            verdict(H, s, ret, dn, tol, [le(H, x - v, tol) | le(H, x + v, tol)])
        else:
            verdict(H, s, ret, dn, tol, [le(H, x, 0)])
    return body


def double(s1, s2, field, free, via):
    def body(H):
        import lips
        tol = begin(H, field)
        ps, dn = point(H, free)
        oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
        ready(H, tol)
        v, w = H.var('v'), H.var('w')
        if via == '_set_pair':
            ret = outcome(H, lambda: oPs._set_pair(s1, v, s2, w))
        else:
            ret = outcome(H, lambda: oPs.variety((s1, s2), (v, w), try_singular_variety_solver=False))
        x, y = EXPR[s1](dn), EXPR[s2](dn)
        if field == 'rational' or via == '_set_pair':
            verdict(H, s1 + ',' + s2, ret, dn, tol, [le(H, x - v, tol) | le(H, x + v, tol), le(H, y - w, tol) | le(H, y + w, tol)])
        else:
            verdict(H, s1 + ',' + s2, ret, dn, tol, [le(H, x, 0), le(H, y, 0)])
    return body


def no_momentum_fix(s, free):
    """without restoring momentum conservation only the invariant is vouched for"""
    def body(H):
        import lips
        tol = begin(H, 'rational')
        ps, dn = point(H, free)
        oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
        ready(H, tol)
        v = H.var('v')
        ret = outcome(H, lambda: oPs._set(s, v, fix_mom=False))
        r = le(H, EXPR[s](dn) - v, tol)
        H.true('returned only if reached' if ret else 'refused only if not reached', r if ret else ~r)
    return body


def fallback(field, how, free, n_inv):
    """the hard-coded construction fails after having moved the point: the fallback solver starts from the original point"""
    def body(H):
        import lips
        tol = begin(H, field)
        ps, dn = point(H, free)
        oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
        ready(H, tol)
        seen = []
        s1, s2 = 's_12-s_34', '2s_3'

        def havoc(self, *a, **k):
            q, _ = point(H, (1, 2, 3, 4), 'h')
            for i in range(1, 5):
                if i % 2:
                    self[i] = q[i - 1]
                else:
                    self[i].r2_sp = q[i - 1].r2_sp
            if how != 'gives up without telling':
                raise RuntimeError('no solution')

        def solver(self, invariants, valuations=(), *a, **k):
            seen.append((legs_now(self), tuple(invariants), tuple(valuations)))
            if how == 'solver raises':
                raise RuntimeError('solver')
            q, d = point(H, free, 's')
            for i in range(1, 5):
                self[i] = q[i - 1]
            seen.append(d)
        vals = tuple(H.var('v%d' % i) for i in range(n_inv))
        with patched((lips.Particles, '_set', havoc), (lips.Particles, '_set_pair', havoc), (lips.Particles, '_singular_variety', solver)):
            ret = outcome(H, lambda: oPs.variety((s1, s2)[:n_inv], vals))
        if how == 'gives up without telling':
            H.true('the fallback is not needed', len(seen) == 0)
            dn2 = legs_now(oPs)
        else:
            if not seen:
                H.fail('fallback', 'the fallback solver was not tried')
                return
            H.eq('the fallback solver starts from the original point', obj(seen[0][0]), obj(dn))
            H.true('the fallback solver gets the same request', seen[0][1] == (s1, s2)[:n_inv] and len(seen[0][2]) == n_inv)
            H.eq('the fallback solver gets the same values', obj(list(seen[0][2])), obj(list(vals)))
            if how == 'solver raises':
                H.true('the failure of the solver is reported', not ret)
                return
            dn2 = seen[1]
            H.eq('the point is what the solver left', obj(legs_now(oPs)), obj(dn2))
        if how == 'gives up without telling':
            return
        e = [EXPR[s](dn2) for s in (s1, s2)[:n_inv]]
        if field == 'rational':
            verdict(H, 'fallback', ret, dn2, tol, [le(H, x - v, tol) | le(H, x + v, tol) for x, v in zip(e, vals)])
        else:
            verdict(H, 'fallback', ret, dn2, tol, [le(H, x, 0) for x in e])
    return body


def scenarios(tier):
    out = []
    A = (Exception, )
    FREE = [(1, ), (3, ), (1, 2), (3, 4)] if tier == 'quick' else [(1, ), (2, ), (3, ), (4, ), (1, 2), (1, 3), (3, 4), (2, 4)]
    for free in FREE:
        f = ''.join(map(str, free))
        for s in EXPR:
            for fld in ('rational', 'finite field'):
                for via in ('_set', 'variety'):
                    out.append(Scenario('%s:%s:%s:%s' % (via, fld, s, f), single(s, fld, free, via), fields=[fld], setup=with_convention('asymmetric'), timeout=20000))
            out.append(Scenario('_set without momentum:%s:%s' % (s, f), no_momentum_fix(s, free), fields=['rational'], setup=with_convention('asymmetric')))
    for free in FREE:
        f = ''.join(map(str, free))
        for s1, s2 in (('s_12-s_34', '2s_3'), ('tr(1|2)', 's_12-s_34'), ('tr(1|2)+s_4', '2s_3')):
            for fld in ('rational', 'finite field'):
                if fld == 'rational' and (s1, free) == ('s_12-s_34', (3, 4)):
                    continue                    # two quadrics in eight unknowns with a tolerance: the solver does not answer
                for via in ('_set_pair', 'variety'):
                    out.append(Scenario('%s:%s:%s,%s:%s' % (via, fld, s1, s2, f), double(s1, s2, fld, free, via), fields=[fld], setup=with_convention('asymmetric'), timeout=20000))
    for fld in ('rational', 'finite field'):
        for how in ('solver succeeds', 'solver raises', 'gives up without telling'):
            for n in (1, 2):
                out.append(Scenario('fallback:%s:%s:%d' % (fld, how, n), fallback(fld, how, (1, 2), n), fields=[fld], setup=with_convention('asymmetric')))
    return out
