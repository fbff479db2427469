"""C04: Lorentz invariants (Mandelstams, masses, traces, Gram determinants, Omega, Pi, delta5, tr5) equal their definitions."""
import itertools
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin, SHAPES, render
from harness import Scenario

BOUNDS = ("up to 9 legs with symbolic components, massless or massive; Mandelstams over subsets of up to 9 legs in several orders; Gram determinants with 2 to 5 "
          "corners (matrices up to 4x4) of up to 4 legs; three-corner shorthands over every ordered choice of three legs at 5 to 7 points; traces of 2 to 6 "
          "signed sums; tr5 with signed sums in any position")
OUTSIDE = "leg labels above 9 (the notation is single digit); traces with an odd number of entries (not a contraction); parenthesised sums in a trace inside a larger expression (refused with a TypeError by the code)"
ASSUMPTIONS = STD


def msum(K, idx):
    return O.madd(*[K.dn[i - 1] for i in idx])


def mand(n, massive, subsets):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n, massive)
        for idx in subsets:
            ijk = ''.join(map(str, idx))
            want = O.det2(msum(K, idx))
            for s in ('s_' + ijk, 's' + ijk, 'S_' + ijk):
                H.eq(s, oPs.compute(s), want)
            H.eq('in an expression: 2s_' + ijk, oPs.compute('2s_' + ijk), 2 * want)
            if not massive:
                H.eq('pair sum s_' + ijk, oPs.compute('s_' + ijk), K.mand_pairs(idx))
        for i in range(1, n + 1):
            for s in ('m_%d' % i, 'm%d' % i, 'M_%d' % i, 's_%d' % i):
                H.eq(s, oPs.compute(s), O.det2(K.dn[i - 1]))
    return body


def gram(n, massive, corners):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n, massive)
        s = 'Δ_' + '|'.join(''.join(map(str, c)) for c in corners)
        m = [msum(K, c) for c in corners]
        k = len(corners)
        G = [[O.dot_dn(m[i], m[j]) for j in range(k - 1)] for i in range(k - 1)]
        want = (-1) ** k * O.gdet(G)
        H.eq(s, oPs.compute(s), want)
        H.eq('in an expression: 3' + s, oPs.compute('3' + s), 3 * want)
    return body


def walk(n, ijk):
    """corner starting at each of i, j, k and extending cyclically up to the next of them"""
    out = []
    for st in ijk:
        c, x = [st], st % n + 1
        while x not in ijk:
            c.append(x)
            x = x % n + 1
        out.append(c)
    return out


def shorthand(n, ijk, massive):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n, massive)
        A, B, C = walk(n, ijk)
        t = ''.join(map(str, ijk))
        a, b = msum(K, A), msum(K, B)
        H.eq('Δ_' + t, oPs.compute('Δ_' + t), O.dot_dn(a, b) ** 2 - O.dot_dn(a, a) * O.dot_dn(b, b))
        if len(A) > 1 and len(B) > 1 and len(C) > 1:
            s = lambda idx: O.det2(msum(K, idx))   # noqa
            H.eq('Ω_' + t, oPs.compute('Ω_' + t), 2 * s(C) * s(B) - (s(C) + s(B) - s(A)) * s(C + [A[0]]))
        if len(A) > 1:
            s = lambda idx: O.det2(msum(K, idx))   # noqa
            H.eq('Π_' + t, oPs.compute('Π_' + t), s(C + [A[0]]) - s(C + [A[1]]))
    return body


def trace(shapes, n, massive, variants):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n, massive)
        for legs in variants:
            s = 'tr(' + '|'.join(render(sh, lg) for sh, lg in zip(shapes, legs)) + ')'
            terms = [list(zip(SHAPES[sh], lg)) for sh, lg in zip(shapes, legs)]
            want = O.tr(K.chain(('odn', None), terms, None))
            H.eq(s, oPs.compute(s), want)
            if '(' not in s[3:]:
                H.eq('in an expression: -2' + s, oPs.compute('-2*' + s), -2 * want)
    return body


def tr5(shapes, n, massive, variants):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n, massive)
        for legs in variants:
            inner = '|'.join(render(sh, lg) for sh, lg in zip(shapes, legs))
            m = [K.sumdn(list(zip(SHAPES[sh], lg))) for sh, lg in zip(shapes, legs)]
            up = [O.up_of_dn(x) for x in m]
            want = O.tr(O.mat(O.mat(m[0], up[1]), O.mat(m[2], up[3]))) - O.tr(O.mat(O.mat(up[0], m[1]), O.mat(up[2], m[3])))
            names = ['tr5(' + inner + ')']
            if all(sh == 'x' for sh in shapes):
                names.append('tr5_' + ''.join(str(lg[0]) for lg in legs))
            for s in names:
                H.eq(s, oPs.compute(s), want)
                H.eq('in an expression: 2*' + s, oPs.compute('2*' + s), 2 * want)
            # tr5 = 4i eps(p1,p2,p3,p4)
            f = [O.four(x, 1j) for x in m]
            eps = 0
            for p in itertools.permutations(range(4)):
                sg = 1
                for i in range(4):
                    for j in range(i + 1, 4):
                        sg = -sg if p[i] > p[j] else sg
                eps = eps + sg * f[0][p[0]] * f[1][p[1]] * f[2][p[2]] * f[3][p[3]]
            if not is_ff(H):
                H.eq('4i epsilon: ' + names[0], oPs.compute(names[0]), 4j * eps)
    return body


def delta5():
    """delta5 is tr5 squared at five points; as a polynomial it depends on the five adjacent invariants only, which the
    kinematics below (diagonal rank-two spinors) sweep independently."""
    def body(H):
        import lips
        H.field('finite field')
        x = [H.var('x%d' % i) for i in range(5)]
        ps = []
        for i in range(5):
            H.assume_nonzero(x[i])
            ps.append(lips.Particle(obj([[H.F(1), H.F(0)], [H.F(0), x[i]]]), field=H.F))     # P^up = diag(1, x): adjacent s = 2(x_i + x_{i+1})
        oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
        s = {frozenset((i, i % 5 + 1)): 2 * (x[i - 1] + x[i % 5]) for i in range(1, 6)}
        S = lambda i, j: s[frozenset((i, j))]   # noqa
        for i in range(1, 6):      # non-adjacent invariants of five conserved massless momenta
            j, k = i % 5 + 1, (i + 1) % 5 + 1
            l, m = [q for q in range(1, 6) if q not in (i, j, k)]
            s[frozenset((i, k))] = S(l, m) - S(i, j) - S(j, k)
        G = [[0 if i == j else s[frozenset((i, j))] for j in range(1, 5)] for i in range(1, 5)]
        H.eq('delta5 is the Gram determinant', oPs.compute('δ5'), O.gdet(G))
    return body


def scenarios(tier):
    out = []
    n = 9
    subs = [list(c) for k in (2, 3) for c in itertools.combinations(range(1, 7), k)]
    out.append(Scenario('mandelstam:massless', mand(6, (), subs[:20] + [[4, 2, 1], [6, 5, 4, 3], [1, 2, 3, 4, 5, 6]])))
    out.append(Scenario('mandelstam:massive', mand(6, (1, 2, 3, 4, 5, 6), subs + [[6, 1], [5, 3, 1], [2, 4, 6, 1], [1, 2, 3, 4, 5, 6]])))
    out.append(Scenario('mandelstam:nine', mand(9, tuple(range(1, 10)), [[9, 8], [1, 9], [7, 8, 9], [1, 3, 5, 7, 9], [2, 4, 6, 8], list(range(1, 10))])))
    out.append(Scenario('mandelstam:mixed', mand(5, (3, 5), [[1, 2], [1, 3], [3, 5], [2, 3, 4], [1, 4, 5]])))
    allm = lambda n: tuple(range(1, n + 1))   # noqa
    grams = [(4, ([1, 2], [3, 4])), (4, ([1], [2], [3, 4])), (6, ([1, 2], [3, 4], [5, 6])), (6, ([1], [2, 3], [4, 5, 6])), (6, ([6, 1], [2, 3], [4, 5])),
             (7, ([1, 2, 3], [4, 5], [6, 7])), (8, ([1, 2], [3, 4], [5, 6], [7, 8])), (5, ([1], [2], [3], [4, 5])), (6, ([1, 2], [3], [4], [5, 6])), (9, ([1, 3, 5], [2, 4, 9], [6, 7, 8]))]
    for nn, c in grams:
        lab = '|'.join(''.join(map(str, x)) for x in c)
        out.append(Scenario('gram:massive:' + lab, gram(nn, allm(nn), c)))
        if max(map(len, c)) <= 2 and len(c) <= 3:
            out.append(Scenario('gram:massless:' + lab, gram(nn, (), c)))
    five = [(5, ([1], [2], [3], [4], [5]))]
    for nn, c in five:
        out.append(Scenario('gram:massive:' + '|'.join(''.join(map(str, x)) for x in c), gram(nn, allm(nn), c), timeout=120000))
    sh = [(6, p) for p in itertools.permutations((1, 3, 5))] + [(6, (2, 4, 6)), (6, (1, 2, 4)), (7, (1, 3, 5)), (7, (2, 5, 7)), (5, (1, 3, 4)), (8, (1, 3, 6)), (6, (6, 2, 4)), (7, (7, 2, 4))]
    if tier != 'quick':
        sh += [(k, p) for k in (5, 6, 7) for p in itertools.permutations(range(1, k + 1), 3)]
    for nn, ijk in dict.fromkeys(sh):
        out.append(Scenario('shorthand:%d:%s' % (nn, ''.join(map(str, ijk))), shorthand(nn, ijk, allm(nn))))
    tshapes = [('x', 'x'), ('x+y', 'x-y'), ('(x+y)', 'x'), ('x-y+z', 'x+y-z+w'), ('x', 'x', 'x', 'x'), ('x+y', 'x', '(x-y)', 'x'), ('x', 'x+y', 'x', 'x+y'), ('(x-y)', '(x+y)', '(x+y)', '(x-y)')]
    if tier != 'quick':
        tshapes += [('x',) * 6, ('x+y', 'x') * 3]
    for t in tshapes:
        k = [len(SHAPES[s]) for s in t]
        base = [(1, 2, 3, 4), (4, 5, 6, 1), (3, 1, 5, 2), (6, 4, 2, 5), (2, 5, 1, 3), (5, 6, 4, 1)]
        vs = [[base[i][:k[i]] for i in range(len(k))], [base[5 - i][:k[i]] for i in range(len(k))]]
        out.append(Scenario('trace:massive:%s' % '|'.join(t), trace(t, 6, allm(6), vs)))
        if len(t) == 2:
            out.append(Scenario('trace:massless:%s' % '|'.join(t), trace(t, 6, (), vs)))
    for t in [('x', 'x', 'x', 'x'), ('x+y', 'x', 'x', 'x'), ('x', 'x+y', 'x', 'x'), ('x', 'x', 'x-y', 'x'), ('x', 'x', 'x', 'x+y'), ('x+y', 'x+y', 'x', 'x'), ('x-y', 'x+y', 'x+y', 'x'), ('x+y', 'x', 'x-y', 'x'), ('x', 'x+y', 'x-y', 'x+y')]:
        k = [len(SHAPES[s]) for s in t]
        # legs 1 and 2 massless, the others massive; the first single entry uses a massless leg
        vs, used = [], 0
        for rot in range(2):
            v, first = [], True
            pool = [3, 4, 5, 6, 3, 4, 5, 6][rot:]
            for s in t:
                if s == 'x' and first:
                    v.append((1 + rot,))
                    first = False
                else:
                    v.append(tuple(pool[:len(SHAPES[s])]))
                    pool = pool[len(SHAPES[s]):] + pool[:len(SHAPES[s])]
            vs.append(v)
        out.append(Scenario('tr5:%s' % '|'.join(t), tr5(t, 6, (3, 4, 5, 6), vs)))
        base = [(1, 2), (3, 4), (5, 6), (2, 5)]
        out.append(Scenario('tr5:massive:%s' % '|'.join(t), tr5(t, 6, allm(6), [[base[i][:k[i]] for i in range(4)], [base[(i + 1) % 4][:k[i]][::-1] for i in range(4)]])))
    out.append(Scenario('tr5:massive sums', tr5(('x+y', 'x-y', 'x+y', 'x-y'), 6, allm(6), [[(1, 2), (3, 4), (5, 6), (2, 5)]])))
    out.append(Scenario('tr5:all massless', tr5(('x',) * 4, 5, (), [[(1,), (2,), (3,), (4,)], [(4,), (2,), (5,), (1,)]])))
    out.append(Scenario('delta5', delta5()))
    return out
