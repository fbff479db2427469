"""C17: contractions of polarization vectors."""
import itertools
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin
from harness import Scenario

BOUNDS = ("points of 3 to 5 legs with symbolic spinors (also with massive legs, which have no polarization but whose momentum is contracted), symbolic reference spinors; every ordered pair of legs; "
          "every pair of helicities in the notations + and p, - and m, given as a string or a list")
OUTSIDE = "points where a denominator vanishes (reference momentum collinear to the leg); the field of finite numbers (the square root of two is a real number in lips)"
ASSUMPTIONS = STD + ["the square root of two, asked for by lips from mpmath, is the positive real number whose square is two (exact)"]


class Shim(object):
    """mpmath as seen by one module, with an exact square root of two."""

    def __init__(self, mod, H):
        self._mod, self._H = mod, H

    def __getattr__(self, k):
        return getattr(self._mod, k)

    def sqrt(self, x):
        return self._H.F.sqrt(self._H.F(x))


def root(H):
    import mpmath
    return H.F.sqrt(H.F(2)) if H.symbolic else mpmath.sqrt(mpmath.mpf(2))


def setup_point(H, n, hel, massive=()):
    oPs, K = kin(H, n, massive)
    q = spinor_pair(H, 'q')
    oPs.oRefVec = H.particle(*q)
    oPs.helconf = hel
    return oPs, K, q


def eps(H, K, q, i, h):
    """rank-two spinor (lower indices) of the polarization vector of leg i"""
    r, l = K.r[i - 1], K.l[i - 1]
    if h in '+p':
        d = O.ang(q[0], r)
        H.assume_nonzero(d)
        return O.mscale(root(H) / d, O.Pdn(q[0], l))
    d = O.sqr(l, q[1])
    H.assume_nonzero(d)
    return O.mscale(root(H) / d, O.Pdn(r, q[1]))


class exact(object):
    def __init__(self, H):
        import lips.particles_compute as m
        import mpmath
        self.p = patched(*([(m, 'mpmath', Shim(mpmath, H))] if H.symbolic else []))

    def __enter__(self):
        return self.p.__enter__()

    def __exit__(self, *a):
        return self.p.__exit__(*a)


def momenta(n, hel, i, massive=()):
    def body(H):
        H.field('finite field')
        oPs, K, q = setup_point(H, n, hel, massive)
        e = eps(H, K, q, i, hel[i - 1])
        with exact(H):
            for j in range(1, n + 1):
                w = O.dot_dn(e, K.dn[j - 1])
                H.eq('ε%d·p%d' % (i, j), oPs.ep(i, j), w)
                H.eq('p%d·ε%d' % (j, i), oPs.pe(j, i), w)
            H.eq('transverse', oPs.ep(i, i), 0)
    return body


def pol(n, hel, i, j):
    def body(H):
        H.field('finite field')
        oPs, K, q = setup_point(H, n, hel)
        a, b = eps(H, K, q, i, hel[i - 1]), eps(H, K, q, j, hel[j - 1])
        with exact(H):
            w = O.dot_dn(a, b)
            got = oPs.ee(i, j)
            H.eq('ε%d·ε%d' % (i, j), got, w)
            H.eq('symmetric', oPs.ee(j, i), got)
    return body


def normal(hel1, hel2):
    """the two polarizations of one leg: ε+·ε- = -1, ε±·ε± = 0 (two legs with the same momentum)"""
    def body(H):
        import lips
        H.field('finite field')
        r, l = spinor_pair(H, 'p')
        oPs = lips.Particles([H.particle(r, l), H.particle(r, l)], field=H.F, fix_mom_cons=False)
        q = spinor_pair(H, 'q')
        H.assume_nonzero(O.ang(r, q[0]))
        H.assume_nonzero(O.sqr(l, q[1]))
        oPs.oRefVec = H.particle(*q)
        oPs.helconf = [hel1, hel2]
        with exact(H):
            opposite = (hel1 in '+p') != (hel2 in '+p')
            H.eq('normalisation', oPs.ee(1, 2), -1 if opposite else 0)
    return body


def gauge(h):
    """a change of reference momentum shifts the vector by a multiple of the momentum"""
    def body(H):
        H.field('finite field')
        oPs, K, q = setup_point(H, 4, [h] * 4)
        q2 = spinor_pair(H, 'other')
        for x in (q, q2):
            H.assume_nonzero(O.ang(x[0], K.r[0]))
            H.assume_nonzero(O.sqr(K.l[0], x[1]))
        with exact(H):
            a = [oPs.ep(1, j) for j in (2, 3)]
            oPs.oRefVec = H.particle(*q2)
            b = [oPs.ep(1, j) for j in (2, 3)]
            s = [O.dot_dn(K.dn[0], K.dn[j - 1]) for j in (2, 3)]
            H.eq('shift proportional to the momentum', (a[0] - b[0]) * s[1], (a[1] - b[1]) * s[0])
    return body


def scenarios(tier):
    out = []
    F = dict(fields=['mpc'])
    for conv in ('asymmetric',):
        su = with_convention(conv)
        for h in '+-pm':
            for i in range(1, 4):
                hel = ['+', '-', 'p']
                hel[i - 1] = h
                out.append(Scenario('%s:ep:%s%d' % (conv, h, i), momenta(3, hel, i), setup=su, **F))
            out.append(Scenario('%s:gauge:%s' % (conv, h), gauge(h), setup=su, **F))
        for h1, h2 in itertools.product('+-pm', repeat=2):
            out.append(Scenario('%s:normalisation:%s%s' % (conv, h1, h2), normal(h1, h2), setup=su, **F))
            for i, j in ((1, 2), (3, 1)) if tier == 'quick' else itertools.permutations((1, 2, 3), 2):
                hel = ['+', '-', 'm']
                hel[i - 1], hel[j - 1] = h1, h2
                out.append(Scenario('%s:ee:%s%d%s%d' % (conv, h1, i, h2, j), pol(3, hel if (i + j) % 2 else ''.join(hel), i, j), setup=su, **F))
    for h in '+m':
        out.append(Scenario('ep with massive legs:%s' % h, momenta(5, [h] * 5, 2, (4, 5)), setup=with_convention('asymmetric'), **F))
    return out
