"""C14: clustering legs into corners."""
import itertools
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin
from harness import Scenario

BOUNDS = ("points of 4 to 8 legs with symbolic components (massless, or two legs massive); about thirty ways to group the legs into corners (1 to 5 legs per corner, in any order, "
          "all legs or only some of them, clusters of clusters); massive fermions made of every ordered pair of two legs, with upper and lower spin index, complete or one component; "
          "internal masses given as numbers, as Mandelstams of the legs in any order and notation, and as sums, multiples and quotients of them")
OUTSIDE = "corners whose string aliases of internal masses use leg labels of two digits; fermions made of massive legs"
ASSUMPTIONS = STD

EPS = [[0, 1], [-1, 0]]


def corner_sum(K, c):
    return K.sumdn([(1, i) for i in c])


def cluster(n, corners, massive=(), twice=None):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n, massive)
        c = oPs.cluster([list(x) for x in corners])
        cs = [list(x) for x in corners]
        if twice is not None:
            c = c.cluster([list(x) for x in twice])
            cs = [[i for k in x for i in cs[k - 1]] for x in twice]
        H.true('number of corners', len(c) == len(cs) and c.multiplicity == len(cs))
        dn = [corner_sum(K, x) for x in cs]
        one = [len(x) == 1 and x[0] not in massive for x in cs]
        for k, x in enumerate(cs, 1):
            consistent(H, 'corner %s' % x, c[k], massless=one[k - 1], mom=dn[k - 1])
            if one[k - 1]:
                H.eq('|%s>' % x, c[k].r_sp_d, obj(O.col(K.r[x[0] - 1])))
                H.eq('[%s|' % x, c[k].l_sp_d, obj([K.l[x[0] - 1]]))
        tot = O.madd(*dn)
        H.eq('total momentum', c.total_mom, obj(O.up_of_dn(tot)))
        m = len(cs)
        KC = O.Kin([K.r[x[0] - 1] if one[k] else None for k, x in enumerate(cs)], [K.l[x[0] - 1] if one[k] else None for k, x in enumerate(cs)], dn)
        for a, b in itertools.combinations(range(1, m + 1), 2):
            H.eq('s_%d%d' % (a, b), c.compute('s_%d%d' % (a, b)), O.det2(O.madd(dn[a - 1], dn[b - 1])))
            H.eq('tr(%d|%d)' % (a, b), c.compute('tr(%d|%d)' % (a, b)), 2 * O.dot_dn(dn[a - 1], dn[b - 1]))
        for a in range(1, m + 1):
            H.eq('s_%d' % a, c[a].m2, O.det2(dn[a - 1]))
        le = [k + 1 for k in range(m) if one[k]]
        if le:
            i, j = le[0], le[-1]
            mid = [x for x in range(1, m + 1) if x != i][:2]
            if mid:
                H.eq('chain', c.compute('⟨%d|%s|%d]' % (i, '+'.join(map(str, mid)), j)), KC.chain(('a', i), [[(1, x) for x in mid]], ('s', j))[0][0])
                H.eq('chain of two', c.compute('[%d|%d|%d|%d]' % (i, mid[0], mid[-1], j)), KC.chain(('s', i), [[(1, mid[0])], [(1, mid[-1])]], ('s', j))[0][0])
        if m >= 4:
            H.eq('tr5', c.compute('tr5(1|2|3|4)'), O.invariant(KC, 'tr5_1234'))
        if m >= 3:
            H.eq('Gram', c.compute('Δ_1|2|3'), -O.gdet([[O.dot_dn(dn[a], dn[b]) for b in range(2)] for a in range(2)]))
    return body


def fermions(n, pairs, spec):
    """pairs: the corners of two legs, in order; spec: (index position, component) of each"""
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n)
        rest = [i for i in range(1, n + 1) if i not in [x for p in pairs for x in p]]
        corners = [[i] for i in rest] + [list(p) for p in pairs]
        c = oPs.cluster(corners, massive_fermions=tuple((len(rest) + k, pos, val) for k, (pos, val) in enumerate(spec, 1)))
        for k, ((a, b), (pos, val)) in enumerate(zip(pairs, spec), 1):
            leg = len(rest) + k
            p = c[leg]
            R = [[K.r[a - 1][0], K.r[b - 1][0]], [K.r[a - 1][1], K.r[b - 1][1]]]
            Lm = [K.l[a - 1], K.l[b - 1]]
            neg = O.mscale(-1, EPS)
            r, l = (R, O.mat(neg, Lm)) if pos == 'u' else (O.mat(R, neg), Lm)
            P = corner_sum(K, (a, b))
            H.eq('sum over the spin index gives the momentum', obj(O.mat(O.mat(r, EPS), l)), obj(P))
            sel = [0, 1] if val is all else [val - 1]
            rs, ls = [[row[x] for x in sel] for row in r], [l[x] for x in sel]
            H.eq('|%d> of %s%s' % (leg, pos, sel), p.r_sp_d, obj(rs))
            H.eq('[%d| of %s%s' % (leg, pos, sel), p.l_sp_d, obj(ls))
            ru = [O.ru([rs[0][x], rs[1][x]]) for x in range(len(sel))]
            lu = [O.lu(x) for x in ls]
            H.eq('<%d|' % leg, p.r_sp_u, obj(ru))
            H.eq('|%d]' % leg, p.l_sp_u, obj([[lu[x][y] for x in range(len(sel))] for y in range(2)]))
            H.eq('momentum of the fermion', p.r2_sp_b, obj(P))
            H.eq('P^up of the fermion', p.r2_sp, obj(O.up_of_dn(P)))
            H.eq('mass', p.m2, O.det2(P))
            H.true('spin index', p.spin_index == (pos, val))
            # Dirac equation: P|I> is the mass (<ba>, up to the index position) times |I]
            up = O.up_of_dn(P)
            ab = K.a(a, b)
            sb = K.s(a, b)
            for x in range(len(sel)):
                H.eq('Dirac equation, right', obj(O.mat(up, [[rs[0][x]], [rs[1][x]]])), obj(O.mscale(ab, O.col(lu[x]))))
                H.eq('Dirac equation, left', obj(O.mat(P, O.col(lu[x]))), obj(O.mscale(-sb, [[rs[0][x]], [rs[1][x]]])))
            for i in range(1, len(rest) + 1):
                ri, li = K.r[rest[i - 1] - 1], K.l[rest[i - 1] - 1]
                H.eq('⟨%d|%d⟩' % (i, leg), flat(c.compute('⟨%d|%d⟩' % (i, leg))), obj([O.ang(ri, [rs[0][x], rs[1][x]]) for x in range(len(sel))]))
                H.eq('[%d|%d]' % (leg, i), flat(c.compute('[%d|%d]' % (leg, i))), obj([O.sqr(ls[x], li) for x in range(len(sel))]))
                H.eq('⟨%d|%d|%d]' % (i, leg, i), c.compute('⟨%d|%d|%d]' % (i, leg, i)), O.mat(O.mat([O.ru(ri)], P), O.col(O.lu(li)))[0][0])
        for i, x in enumerate(rest, 1):
            consistent(H, 'leg %d' % x, c[i], mom=K.dn[x - 1])
    return body


def flat(x):
    import numpy
    a = numpy.asarray(x, dtype=object)
    return a.reshape(-1)


ALIASES = {  # alias -> value from the original kinematics
    's_345': lambda K: K.mand([3, 4, 5]), 's_54': lambda K: K.mand([4, 5]), 's_435': lambda K: K.mand([3, 4, 5]), 'S_34': lambda K: K.mand([3, 4]), 's34': lambda K: K.mand([3, 4]),
    's_34+s_45': lambda K: K.mand([3, 4]) + K.mand([4, 5]), '2*s_34': lambda K: 2 * K.mand([3, 4]), 's_345/s_12': lambda K: K.mand([3, 4, 5]) / K.mand([1, 2]), '3s_56-s_3456': lambda K: 3 * K.mand([5, 6]) - K.mand([3, 4, 5, 6]),
    's_12': lambda K: K.mand([1, 2]), '(s_12+s_56)^2': lambda K: (K.mand([1, 2]) + K.mand([5, 6])) ** 2, 's_14': lambda K: K.mand([1, 4]),
}


def masses(alias, corners, n=6):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n)
        val = H.var('mt')
        oPs.mt2 = val
        if '/s_12' in alias:
            H.assume_nonzero(K.mand([1, 2]))
        oPs.mw2 = alias
        w = ALIASES[alias](K)
        H.eq('before', oPs.compute('mw2'), w)
        c = oPs.cluster([list(x) for x in corners])
        H.true('names kept', set(c.internal_masses) == {'mt2', 'mw2'})
        H.eq('numeric mass', c.mt2, val)
        H.eq('numeric mass evaluated', c.compute('mt2'), val)
        H.eq('mass given as %s' % alias, c.compute('mw2'), w)
        H.eq('in an expression', c.compute('2mw2-mt2'), 2 * w - val)
        H.eq('the original keeps it', oPs.compute('mw2'), w)
    return body


CORNERS = {
    4: [((1, 2), (3, 4)), ((1,), (2,), (3, 4)), ((4, 1), (2,), (3,))],
    5: [((1,), (2,), (3,), (4, 5)), ((5, 1), (2, 3), (4,)), ((1, 2, 3), (4,), (5,)), ((2, 4), (1, 3), (5,))],
    6: [((1, 2), (3, 4), (5, 6)), ((1,), (2,), (3, 4), (5, 6)), ((6, 1, 2), (3,), (4, 5)), ((1, 4), (2, 5), (3, 6)), ((1,), (2, 3, 4, 5), (6,)), ((1,), (2,), (3,), (4,), (5,), (6,)), ((6,), (5,), (4, 3), (2,), (1,)),
        ((1, 2), (4,)), ((3, 1, 5), (2, 4, 6)), ((1, 2, 3, 4, 5), (6,))],
    7: [((1, 2), (3, 4), (5, 6), (7,)), ((7, 1), (2, 3, 4), (5,), (6,)), ((1, 3, 5, 7), (2, 4), (6,)), ((1,), (2, 3), (4, 5, 6, 7))],
    8: [((1, 2), (3, 4), (5, 6), (7, 8)), ((1,), (2, 3, 4), (5,), (6, 7, 8)), ((8, 1, 2), (3, 4, 5, 6), (7,))],
}
MC = [((1, 2), (3, 4), (5, 6)), ((1,), (2,), (3, 4), (5, 6)), ((1,), (2,), (3, 4), (5,), (6,)), ((1,), (2,), (3,), (4, 5), (6,)), ((2,), (1,), (4, 3, 5), (6,)), ((6, 5), (4,), (3,), (2, 1)), ((1, 2), (3, 4, 5, 6)), ((3,), (4,), (5,), (6,), (1,), (2,)), ((1, 4), (2, 3), (5, 6))]


def scenarios(tier):
    q = tier == 'quick'
    out = []
    asym = with_convention('asymmetric')
    for n in CORNERS:
        for cs in CORNERS[n]:
            out.append(Scenario('cluster:%d:%s' % (n, cs), cluster(n, cs), setup=asym))
    for cs in CORNERS[6]:
        out.append(Scenario('cluster with massive legs:%s' % (cs,), cluster(6, cs, massive=(5, 6)), setup=asym))
    for cs, tw in ((((1,), (2,), (3, 4), (5, 6)), ((1,), (2,), (3, 4))), (((1,), (2, 3), (4,), (5, 6)), ((4, 2), (3,), (1,))), (((1,), (2,), (3,), (4,), (5,), (6,)), ((1, 6), (2, 5), (3, 4)))):
        out.append(Scenario('cluster of a cluster:%s:%s' % (cs, tw), cluster(6, cs, twice=tw), setup=asym))
    vals = (all, 1, 2)
    for k, (a, b) in enumerate(itertools.permutations(range(1, 5), 2)):
        for pos in 'ud':
            for v, val in enumerate(vals):
                if q and (k + v) % 3:
                    continue
                out.append(Scenario('fermion:%d%d:%s%s' % (a, b, pos, '' if val is all else val), fermions(5 if k % 2 else 4, [(a, b)], [(pos, val)]), setup=asym))
    for p1, p2 in (('u', 'd'), ('d', 'u'), ('u', 'u'), ('d', 'd')):
        for v1, v2 in ((all, all), (1, 2), (2, all), (all, 1)):
            if q and (v1 is all) != (v2 is all) and p1 == p2:
                continue
            out.append(Scenario('two fermions:%s%s:%s%s' % (p1, p2, 'a' if v1 is all else v1, 'a' if v2 is all else v2), fermions(6, [(3, 4), (6, 5)], [(p1, v1), (p2, v2)]), setup=asym))
    for al in ALIASES:
        for k, cs in enumerate(MC):
            if al == 's_14' and k % 3:
                continue
            out.append(Scenario('masses:%s:%s' % (al, cs), masses(al, cs), setup=asym))
    return out
