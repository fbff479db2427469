"""C02: particle arithmetic is the linear structure of momenta and leaves its operands alone."""
import numpy
import oracle as O
from checks.common import *   # noqa
from harness import Scenario

BOUNDS = "up to 4 particles, each massless (two spinors) or massive (general rank-two spinor), components and scalars symbolic; both spinor conventions; fields with and without square roots; every operator, both operand orders, and nested combinations"
OUTSIDE = "field-specific rounding; operands from different fields"
ASSUMPTIONS = STD + ["results of sums have P0+P3 != 0 where the asymmetric convention divides by it"]


def mk(H, kind, tag):
    import lips
    if kind == 'massless':
        r, l = spinor_pair(H, tag)
        return lips.Particle((obj(r).reshape(2, 1), obj(l).reshape(1, 2)), field=H.F), O.Pdn(r, l)
    dn = [[H.var(tag + 'm00'), H.var(tag + 'm01')], [H.var(tag + 'm10'), H.var(tag + 'm11')]]
    H.assume_nonzero(dn[0][0])
    return lips.Particle(obj(O.up_of_dn(dn)), field=H.F), dn


def expect(H, label, p, dn):
    import lips
    H.true(label + ': is a particle', isinstance(p, lips.Particle))
    H.eq(label + ': P_dn', p.r2_sp_b, obj(dn))
    H.eq(label + ': P^up', p.r2_sp, obj(O.up_of_dn(dn)))
    if not (is_ff(H) and p.four_mom is None):
        f = O.four(dn, 1j)
        H.eq(label + ': four momentum', obj(p.four_mom), obj(f))
        H.eq(label + ': lower four momentum', obj(p.four_mom_d), obj([f[0], -f[1], -f[2], -f[3]]))
    H.eq(label + ': mass squared', p.m2, O.det2(dn))
    H.true(label + ': keeps the field', p.field is H.F or p.field == H.F)


def lin(*terms):
    return O.madd(*[O.mscale(k, m) for k, m in terms])


def binary(k1, k2, fld='finite field'):
    def body(H):
        H.field(fld)
        p, P = mk(H, k1, 'p')
        q, Q = mk(H, k2, 'q')
        sp, sq = lin((1, P), (1, Q)), lin((1, P), (-1, Q))
        H.assume_nonzero(sp[0][0])
        H.assume_nonzero(sq[0][0])
        expect(H, 'p+q', p + q, sp)
        expect(H, 'p-q', p - q, sq)
        expect(H, 'q+p', q + p, sp)
        expect(H, '-(p+q)', -(p + q), lin((-1, sp)))
        expect(H, 'p afterwards', p, P)
        expect(H, 'q afterwards', q, Q)
    return body


UNARY = {
    '-p': lambda p, c, P: (-p, lin((-1, P))),
    'p*c': lambda p, c, P: (p * c, lin((c, P))),
    'c*p': lambda p, c, P: (p.__rmul__(c), lin((c, P))),
    '2*p': lambda p, c, P: (2 * p, lin((2, P))),
    'p*2': lambda p, c, P: (p * 2, lin((2, P))),
    'p/c': lambda p, c, P: (p / c, [[x / c for x in row] for row in P]),
    'p/3': lambda p, c, P: (p / 3, [[x / 3 for x in row] for row in P]),
    'p+0': lambda p, c, P: (p + 0, P),
    '0+p': lambda p, c, P: (0 + p, P),
    'p-0': lambda p, c, P: (p - 0, P),
    '-(-p)': lambda p, c, P: (-(-p), P),
}


def unary(op, k1, fld='finite field'):
    def body(H):
        H.field(fld)
        p, P = mk(H, k1, 'p')
        H.assume_nonzero(P[0][0])
        c = H.var('c')
        H.assume_nonzero(c)
        q, Q = UNARY[op](p, c, P)
        expect(H, op, q, Q)
        expect(H, 'p afterwards', p, P)
        H.eq('Lorentz square', p.lsq(), O.dot_dn(P, P))
    return body


def sums(kinds, fld='finite field'):
    def body(H):
        import lips
        H.field(fld)
        ps = [mk(H, k, 'p%d' % i) for i, k in enumerate(kinds)]
        S = O.madd(*[P for _, P in ps])
        acc = None
        for _, P in ps:                      # stay in the chart for all partial sums
            acc = P if acc is None else O.madd(acc, P)
            H.assume_nonzero(acc[0][0])
        expect(H, 'sum', sum([p for p, _ in ps]), S)
        for i, (p, P) in enumerate(ps):
            expect(H, 'p%d afterwards' % i, p, P)
        for i, (p, P) in enumerate(ps):
            for j, (q, Q) in enumerate(ps):
                H.eq('p%d.p%d' % (i, j), lips.ldot(p, q), O.dot_dn(P, Q))
        oPs = lips.Particles([p for p, _ in ps], field=H.F, fix_mom_cons=False)
        for i in range(len(ps)):
            for j in range(len(ps)):
                H.eq('ldot(%d,%d)' % (i + 1, j + 1), oPs.ldot(i + 1, j + 1), O.dot_dn(ps[i][1], ps[j][1]))
        H.eq('total momentum', oPs.total_mom, obj(O.up_of_dn(S)))
        H.eq('masses squared', obj(oPs.m2s), obj([O.det2(P) for _, P in ps]))
    return body


def nested():
    def body(H):
        H.field('finite field')
        p, P = mk(H, 'massless', 'p')
        q, Q = mk(H, 'massless', 'q')
        r, R = mk(H, 'massive', 'r')
        c = H.var('c')
        E = lin((c, P), (-c, Q), (1, R))
        T = lin((1, P), (-1, Q))
        for m in (T, lin((c, T)), E):
            H.assume_nonzero(m[0][0])
        expect(H, '(p-q)*c+r', (p - q) * c + r, E)
    return body


def scenarios(tier):
    out = []
    for conv in ('symmetric', 'asymmetric'):
        st = with_convention(conv)
        for a in ('massless', 'massive'):
            for op in UNARY:
                out.append(Scenario('%s:unary:%s:%s' % (conv, op, a), unary(op, a), setup=st))
            for b in ('massless', 'massive'):
                out.append(Scenario('%s:binary:%s,%s' % (conv, a, b), binary(a, b), setup=st))
        ks = [('massless',) * 2, ('massless',) * 3, ('massless', 'massive', 'massless'), ('massive',) * 3, ('massless',)]
        if tier != 'quick':
            ks += [('massless',) * 4, ('massive',) * 4, ('massive', 'massless', 'massless', 'massive'), ('massless',) * 5, ('massless',) * 6]
        for k in ks:
            out.append(Scenario('%s:sum:%s' % (conv, ','.join(k)), sums(k), setup=st))
        out.append(Scenario('%s:nested' % conv, nested(), setup=st))
        for fld in ('rational', 'gaussian rational'):        # fields without square roots
            kw = dict(setup=st, fields=[fld])
            for a in ('massless', 'massive'):
                for op in ('-p', 'p*c', '2*p', 'p/c', 'p+0'):
                    out.append(Scenario('%s:%s:unary:%s:%s' % (fld, conv, op, a), unary(op, a, fld), **kw))
                for b in ('massless', 'massive'):
                    out.append(Scenario('%s:%s:binary:%s,%s' % (fld, conv, a, b), binary(a, b, fld), **kw))
            for k in ks[:4]:
                out.append(Scenario('%s:%s:sum:%s' % (fld, conv, ','.join(k)), sums(k, fld), **kw))
    return out
