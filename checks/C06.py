"""C06: restoring momentum conservation."""
import itertools
import oracle as O
from checks.common import *   # noqa
from harness import Scenario

BOUNDS = ("3 to 6 legs (thorough: 8) with symbolic spinors or symbolic real four-momenta; every ordered pair of adjusted legs, both choices of spinor chirality, "
          "all three axes for real momenta, both spinor conventions, and the unspecified pair as a nondeterministic choice over all ordered pairs")
OUTSIDE = "fewer than 3 legs; points where the spinor product of the adjusted pair vanishes (the code divides by it)"
ASSUMPTIONS = STD


def complexm(n, pairs, axis, via):
    def body(H):
        H.field('finite field')
        for A, B in pairs:
            oPs, (r, l) = H.raw(n)
            before = [(L(p.r_sp_d), L(p.l_sp_d), L(p.r2_sp), p) for p in oPs]
            if via == 'kw':
                oPs.fix_mom_cons(A=A, B=B, axis=axis)
            elif axis == 1:
                oPs.fix_mom_cons(A, B)
            else:
                oPs.fix_mom_cons(A, B, False, axis)
            check(H, '%d%d' % (A, B), oPs, before, A, B, axis)
    return body


def check(H, lab, oPs, before, A, B, axis):
    conserved(H, lab, oPs)
    H.true(lab + ': same number of legs', len(oPs) == len(before))
    for i, p in enumerate(list.__iter__(oPs), 1):
        consistent(H, '%s: leg %d' % (lab, i), p)
        r0, l0, P0, p0 = before[i - 1]
        if i not in (A, B):
            H.eq('%s: leg %d untouched (r)' % (lab, i), p.r_sp_d, obj(r0))
            H.eq('%s: leg %d untouched (l)' % (lab, i), p.l_sp_d, obj(l0))
        elif axis == 1:
            H.eq('%s: [%d| untouched' % (lab, i), p.l_sp_d, obj(l0))
        else:
            H.eq('%s: |%d> untouched' % (lab, i), p.r_sp_d, obj(r0))


def default_pair(n, axis):
    def body(H):
        import lips.particles as LP
        H.field('finite field')
        oPs, (r, l) = H.raw(n)
        before = [(L(p.r_sp_d), L(p.l_sp_d), L(p.r2_sp), p) for p in oPs]
        with patched((LP, 'random', FakeRandom(H))):
            if axis == 1:
                oPs.fix_mom_cons()
            else:
                oPs.fix_mom_cons(axis=2)
        conserved(H, 'default pair', oPs)
        changed = 0
        for i, p in enumerate(list.__iter__(oPs), 1):
            consistent(H, 'leg %d' % i, p)
            kept = p.l_sp_d if axis == 1 else p.r_sp_d
            H.eq('leg %d: untouched chirality' % i, kept, obj(before[i - 1][1 if axis == 1 else 0]))
    return body


def realm(n, A, B, axis):
    def body(H):
        import lips
        H.field('finite field', complex_sqrt=True)
        ps = []
        for i in range(1, n + 1):
            f = obj([H.real('k%d%d' % (i, k)) for k in range(4)])
            H.assume_nonzero(f[0] + f[3])
            ps.append(lips.Particle(f, field=H.F))
        oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
        before = [L(p.four_mom) for p in oPs]
        oPs.fix_mom_cons(A, B, real_momenta=True, axis=axis)
        conserved(H, '', oPs)
        tot = [0, 0, 0, 0]
        for i, p in enumerate(list.__iter__(oPs), 1):
            f = L(p.four_mom)
            tot = [x + y for x, y in zip(tot, f)]
            if i in (A, B):
                H.eq('leg %d massless' % i, O.mink(f, f), 0)
                for k in range(4):
                    H.eq('leg %d component %d real' % (i, k), im(f[k]), 0)
                H.eq('leg %d rank two' % i, p.r2_sp_b, obj(O.dn_of_four(f, 1j)))
                H.eq('leg %d lower' % i, obj(p.four_mom_d), obj([f[0], -f[1], -f[2], -f[3]]))
                if p.r_sp_d is None:             # no spinors along the negative z axis in this convention
                    H.eq('leg %d without spinors' % i, f[0] + f[3], 0)
                    continue
                if n == 3 or lips.spinor_convention == 'asymmetric':     # (C01 covers the step from momentum to spinors)
                    H.eq('leg %d spinors' % i, obj(O.Pdn([p.r_sp_d[0, 0], p.r_sp_d[1, 0]], [p.l_sp_d[0, 0], p.l_sp_d[0, 1]])), p.r2_sp_b)
            else:
                H.eq('leg %d untouched' % i, obj(f), obj(before[i - 1]))
        H.eq('four momenta sum to zero', obj(tot), obj([0] * 4))
    return body


def im(x):
    return x.imag if hasattr(x, 'imag') else 0


def constructor(n):
    """a list of legs handed to the constructor with fix_mom_cons=True"""
    def body(H):
        import lips
        import lips.particles as LP
        H.field('finite field')
        r, l = H.raw_spinors(n)
        ps = [H.particle(a, b) for a, b in zip(r, l)]
        with patched((LP, 'random', FakeRandom(H))):
            oPs = lips.Particles(ps, field=H.F, fix_mom_cons=True)
        conserved(H, 'constructor', oPs)
        for i, p in enumerate(list.__iter__(oPs), 1):
            consistent(H, 'leg %d' % i, p)
    return body


def scenarios(tier):
    out = []
    for conv in ('symmetric', 'asymmetric'):
        st = with_convention(conv)
        for n in ((3, 4, 5, 6) if tier == 'quick' else (3, 4, 5, 6, 7, 8)):
            for axis in (1, 2):
                for A in range(1, n + 1):
                    prs = [(A, B) for B in range(1, n + 1) if B != A]
                    out.append(Scenario('%s:%d:axis%d:A%d' % (conv, n, axis, A), complexm(n, prs, axis, 'kw' if A % 2 else 'pos'), setup=st))
        for n in ((3, 4, 5) if tier == 'quick' else (3, 4, 5, 6)):
            for axis in (1, 2):
                out.append(Scenario('%s:%d:default:axis%d' % (conv, n, axis), default_pair(n, axis), setup=st))
            if n <= 4 or tier != 'quick':
                out.append(Scenario('%s:%d:constructor' % (conv, n), constructor(n), setup=st, max_paths=2000))
            for axis in (1, 2, 3):
                prs = [(1, 2), (n, 1), (2, n)] if n < 6 else list(itertools.permutations(range(1, n + 1), 2))
                for A, B in dict.fromkeys(prs):
                    out.append(Scenario('%s:%d:real:axis%d:%d,%d' % (conv, n, axis, A, B), realm(n, A, B, axis), setup=st, fields=['mpc']))
    return out
