"""C12: relabelling and parity conjugation act in the same way on points, on polynomials in the components and on polynomials in the invariants."""
import re
import itertools
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin
from harness import Scenario

BOUNDS = ("points of 3 to 9 legs with symbolic components, massless or with massive legs, two legs possibly with equal momenta; every permutation of 3 and 4 legs "
          "(thorough: 5), selected ones (cycles, transpositions, reversal) above, with and without conjugation; polynomials with up to four terms of degree up to four")
OUTSIDE = "more than nine legs for permutations (their notation is one digit per leg; copies are checked up to 12 legs); ideals beyond their generators"
ASSUMPTIONS = STD + ["polynomials in the invariants are homogeneous; conjugation reverses the sign of every bracket, so odd degrees agree up to sign"]


def state(oPs):
    return [(L(p.r_sp_d), L(p.l_sp_d), L(p.r2_sp), L(p.r2_sp_b)) for p in oPs]


def expected(K, perm, conj, massive=()):
    n = len(perm)
    r, l, dn = [None] * n, [None] * n, [None] * n
    for i in range(n):
        k = int(perm[i]) - 1
        r[k], l[k], dn[k] = (K.l[i], K.r[i], [list(x) for x in zip(*K.dn[i])]) if conj else (K.r[i], K.l[i], K.dn[i])
    return O.Kin(r, l, dn)


def check_point(H, label, oPs, K):
    H.true(label + ': number of legs', len(oPs) == len(K.dn))
    for i, p in enumerate(oPs):
        consistent(H, '%s: leg %d' % (label, i + 1), p, massless=K.r[i] is not None, mom=K.dn[i])
        if K.r[i] is not None:
            H.eq('%s: leg %d |i>' % (label, i + 1), p.r_sp_d, obj(O.col(K.r[i])))
            H.eq('%s: leg %d [i|' % (label, i + 1), p.l_sp_d, obj([K.l[i]]))


def inv(perm):
    q = [0] * len(perm)
    for i, c in enumerate(perm):
        q[int(c) - 1] = i + 1
    return ''.join(map(str, q))


def images(n, perms, massive=(), equal=False):
    def body(H):
        import lips
        H.field('finite field')
        if equal:
            oPs, K = kin(H, n)
            t = H.var('t')
            H.assume_nonzero(t)
            oPs[2].r_sp_d = obj(O.col([t * x for x in K.r[0]]))
            oPs[2].l_sp_d = obj([[x / t for x in K.l[0]]])
            K.r[1], K.l[1], K.dn[1] = [t * x for x in K.r[0]], [x / t for x in K.l[0]], K.dn[0]
        else:
            oPs, K = kin(H, n, massive)
        x = H.var('mt2')
        oPs.mt2 = x
        before = state(oPs)
        for perm in perms:
            for conj in (False, True):
                im = oPs.image((perm, conj))
                check_point(H, '%s %s' % (perm, conj), im, expected(K, perm, conj))
                H.eq('internal masses are kept', im.mt2, x)
                back = im.image((inv(perm), conj))
                check_point(H, 'inverse of %s %s' % (perm, conj), back, K)
                from lips.symmetries import inverse
                rule = inverse((perm, conj))
                H.true('inverse', rule == (inv(perm), conj), str(rule))
            H.true('image without conjugation', len(oPs.image(perm)) == n)
            check_point(H, perm, oPs.image(perm), expected(K, perm, False))
        after = state(oPs)
        for a, b in zip(before, after):
            H.eq('the original is untouched', obj(a[3]), obj(b[3]))
            H.eq('the original is untouched', obj(a[2]), obj(b[2]))
            if a[0] is not None and not massive:
                H.eq('the original is untouched', obj(a[0]), obj(b[0]))
                H.eq('the original is untouched', obj(a[1]), obj(b[1]))
    return body


def composition(n, pairs):
    """image under p, then under q, is the image under the composed rule"""
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n)
        for p, q in pairs:
            for c, d in itertools.product((False, True), repeat=2):
                im = oPs.image((p, c)).image((q, d))
                pq = ''.join(q[int(x) - 1] for x in p)
                check_point(H, '%s then %s' % ((p, c), (q, d)), im, expected(K, pq, c != d))
    return body


def copies(n):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n)
        oPs.mt = H.var('mt')
        c = oPs.copy()
        check_point(H, 'copy', c, K)
        H.eq('internal mass', c.mt, oPs.mt)
    return body


def conjugate_in_place(n, massive):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n, massive)
        ident = ''.join(str(i) for i in range(1, n + 1))
        oPs.angles_for_squares()
        check_point(H, 'conjugated', oPs, expected(K, ident, True))
        if not massive:
            for i, j in itertools.combinations(range(1, n + 1), 2):
                H.eq('<%d|%d> becomes [j|i]' % (i, j), oPs.compute("⟨%d|%d⟩" % (i, j)), K.s(j, i))
                H.eq('[%d|%d] becomes <j|i>' % (i, j), oPs.compute("[%d|%d]" % (i, j)), K.a(j, i))
        oPs.angles_for_squares()
        check_point(H, 'twice', oPs, K)
    return body


COV = ["a1*d2-b3*c1", "a1*c1+a2*c2+a3*c3", "2*a1^2*d3-3*b2*c3*c1+5", "a1*b2-a2*b1", "c1*d3-c3*d1", "b1*d2^2*c3-a3", "a2*b2*c2*d2", "-a1*b3*c2*d1+7*d2*d3", "a1-b2+c3-d1"]


def value(poly, env):
    return eval(re.sub(r'([a-dAB])(\d+)', r"env['\1\2']", poly.replace('^', '**')), {'env': env})


def comp_env(oPs):
    e = {}
    for i, p in enumerate(oPs, 1):
        e.update({'a%d' % i: p.r_sp_d[0, 0], 'b%d' % i: p.r_sp_d[1, 0], 'c%d' % i: p.l_sp_d[0, 0], 'd%d' % i: p.l_sp_d[0, 1]})
    return e


def covariant(n, perms, polys):
    def body(H):
        from lips.algebraic_geometry.covariant_ideal import covariant_poly_image, LipsIdeal
        from syngular import Ring
        from lips.algebraic_geometry.tools import lips_covariant_symbols
        H.field('finite field')
        oPs, K = kin(H, n)
        env = comp_env(oPs)
        for perm in perms:
            for conj in (False, True):
                im = comp_env(oPs.image((perm, conj)))
                for f in polys:
                    g = covariant_poly_image(f, (perm, conj))
                    H.eq('%s under %s %s' % (f, perm, conj), value(g, im), value(f, env))
                ideal = LipsIdeal(Ring('0', lips_covariant_symbols(n), 'dp'), list(polys))
                img = ideal.image((perm, conj))
                H.true('as many generators', len(img.generators) == len(polys))
                for f, g in zip(polys, img.generators):
                    H.eq('generator %s under %s %s' % (f, perm, conj), value(g, im), value(f, env))
                img = ideal(perm, conj)
                for f, g in zip(polys, img.generators):
                    H.eq('call: generator %s under %s %s' % (f, perm, conj), value(g, im), value(f, env))
    return body


def pair_env(oPs, n):
    e = {}
    for k, (i, j) in enumerate(itertools.combinations(range(1, n + 1), 2), 1):
        e['A%d' % k] = oPs.compute("⟨%d|%d⟩" % (i, j))
        e['B%d' % k] = oPs.compute("[%d|%d]" % (i, j))
    return e


def invariant_polys(n):
    m = n * (n - 1) // 2
    return ["A1*B1-A%d*B%d" % (m, m), "A1*A%d*B2-3*A2*B1*B%d" % (m, m - 1), "A%d" % (m - 1), "B2*B%d" % m, "2*A2^2*B1-A1*B%d^2" % (m - 1), "A1*B%d*A%d*B2+5*A2*B1*A1*B1" % (m, m)] + ["A%d*B%d" % (k, m + 1 - k) for k in range(1, m + 1)]


def degree(f):
    t = f.split('-')[0].split('+')[0]
    return sum(int(x) if x else 1 for x in re.findall(r'[AB]\d+(?:\^(\d))?', t))


def invariant(n, perms):
    def body(H):
        from lips.algebraic_geometry.invariant_ideal import invariant_poly_image, SpinorIdeal
        from lips.algebraic_geometry.tools import lips_invariant_symbols
        from syngular import Ring
        H.field('finite field')
        oPs, K = kin(H, n)
        env = pair_env(oPs, n)
        polys = invariant_polys(n)
        for perm in perms:
            for conj in (False, True):
                im = pair_env(oPs.image((perm, conj)), n)
                gens = [invariant_poly_image(f, (perm, conj)) for f in polys]
                for f, g in zip(polys, gens):
                    s = (-1) ** degree(f) if conj else 1
                    H.eq('%s under %s %s' % (f, perm, conj), value(g, im), s * value(f, env))
                ideal = SpinorIdeal(Ring('0', lips_invariant_symbols(n), 'dp'), list(polys))
                for f, g in zip(polys, ideal(perm, conj).generators):
                    s = (-1) ** degree(f) if conj else 1
                    H.eq('generator %s under %s %s' % (f, perm, conj), value(g, im), s * value(f, env))
    return body


def chunk(xs, k):
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def scenarios(tier):
    out = []
    P = lambda n: [''.join(p) for p in itertools.permutations('123456789'[:n])]    # noqa
    some = {5: ['23451', '51234', '21354', '54321', '31254', '24153'], 6: ['231456', '654321', '234561', '126345', '413265'], 7: ['2345671', '7612345'], 9: ['234567891', '987654321', '312645978']}
    sizes = [(3, P(3)), (4, P(4)), (5, some[5] if tier == 'quick' else P(5)), (6, some[6]), (7, some[7]), (9, some[9])]
    for n, perms in sizes:
        for k, ps in enumerate(chunk(perms, 4)):
            out.append(Scenario('image:%d:%d' % (n, k), images(n, ps)))
            if n in (4, 6):
                out.append(Scenario('image:massive:%d:%d' % (n, k), images(n, ps, (2, 3))))
            if n in (3, 4):
                out.append(Scenario('image:equal momenta:%d:%d' % (n, k), images(n, ps, equal=True)))
    out.append(Scenario('composition:4', composition(4, [('2341', '2143'), ('2341', '1342'), ('3124', '4321'), ('2314', '2314')])))
    out.append(Scenario('composition:5', composition(5, [('23451', '21345'), ('31245', '54123')])))
    for n in (3, 5, 9, 10, 12):
        out.append(Scenario('copy:%d' % n, copies(n)))
    for n, m in ((3, ()), (5, ()), (4, (1, 3)), (9, ())):
        out.append(Scenario('conjugation:%d:%s' % (n, m), conjugate_in_place(n, m)))
    for k, ps in enumerate(chunk(P(3), 3)):
        out.append(Scenario('components:3:%d' % k, covariant(3, ps, COV)))
    for k, ps in enumerate(chunk(P(4), 4)):
        out.append(Scenario('components:4:%d' % k, covariant(4, ps, COV[:5] + ["a4*c1+b3*d2", "a4^2*b1-d4*c4"])))
        out.append(Scenario('invariants:4:%d' % k, invariant(4, ps)))
    for k, ps in enumerate(chunk(some[5] if tier == 'quick' else P(5), 3)):
        out.append(Scenario('invariants:5:%d' % k, invariant(5, ps)))
        out.append(Scenario('components:5:%d' % k, covariant(5, ps, COV[:4] + ["a5*c4+b3*d2", "a4^2*b1-d5*c4"])))
    out.append(Scenario('invariants:6', invariant(6, some[6])))
    return out
