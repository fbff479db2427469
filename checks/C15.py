"""C15: equality and hashing of particles and points."""
import sys
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin
from harness import Scenario

BOUNDS = ("particles with symbolic components, massless or massive, built from spinors, rank-two spinors or four-momenta; points of 1 to 5 legs, compared with points of any number "
          "of legs up to 5, with the legs in another order, with one leg changed, with copies and images; hashes before and after every kind of assignment")
OUTSIDE = "hash collisions of unequal points beyond those of Python's own hash of a tuple of numbers (the built-in hash is modelled as injective)"
ASSUMPTIONS = STD + ["the built-in hash function, as called by lips, is replaced in the symbolic runs by one that returns its argument; on replay it is the real one"]


class Tree(object):
    def __init__(self, kind, xs):
        self.kind, self.xs = kind, list(xs)

    def _op(self, o, name):
        return Tree(name, [self, o])

    def __xor__(self, o):
        return self._op(o, 'xor')

    def __add__(self, o):
        return self._op(o, 'add')

    def __mul__(self, o):
        return self._op(o, 'mul')

    __rmul__ = __radd__ = __rxor__ = _op2 = lambda self, o: Tree('r', [o, self])


def fake(x):
    import lips
    if isinstance(x, (lips.Particle, lips.Particles)):
        return type(x).__hash__(x)
    if isinstance(x, (tuple, list)):
        return Tree('tuple', [fake(y) if isinstance(y, tuple) else y for y in x])
    if isinstance(x, frozenset):
        return Tree('set', x)
    return x


class hashing(object):
    """`hash` as seen by the modules of lips, in symbolic runs."""

    def __init__(self, H):
        self.on = H.symbolic

    def __enter__(self):
        self.mods = [m for k, m in sys.modules.items() if k.split('.')[0] == 'lips' and m is not None and 'hash' not in vars(m)] if self.on else []
        for m in self.mods:
            m.hash = fake
        return self

    def __exit__(self, *a):
        for m in self.mods:
            del m.hash
        return False

    def __call__(self, x):
        return fake(x) if self.on else hash(x)


def same(H, a, b):
    """condition that two hashes agree, or a bool"""
    if not H.symbolic:
        return H.cond_eq(a, b)
    if isinstance(a, Tree) or isinstance(b, Tree):
        if not (isinstance(a, Tree) and isinstance(b, Tree) and a.kind == b.kind and len(a.xs) == len(b.xs)):
            return H.cond_eq(0, 1)
        c = H.cond_eq(0, 0)
        for x, y in zip(a.xs, b.xs):
            c = c & same(H, x, y)
        return c
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return H.cond_eq(0, 0 if a is b or a == b else 1)
    return H.cond_eq(a, b)


def momenta(H, m, n):
    c = H.cond_eq(0, 0)
    for x, y in zip(m, n):
        for a, b in zip(x, y):
            c = c & H.cond_eq(a, b)
    return c


def iff(H, label, got, want):
    """got: the bool the code returned on this path; want: condition"""
    H.true(label, want if got else ~want)


def make(H, tag, how, massive):
    import lips
    if massive:
        m = [[H.var('%s%d%d' % (tag, a, b)) for b in range(2)] for a in range(2)]
        H.assume_nonzero(m[0][0])
        H.assume_nonzero(O.det2(m))
    else:
        a, b = spinor_pair(H, tag)
        m = O.Pdn(a, b)
        if how != 'spinors':
            H.assume_nonzero(m[0][0])
    if how == 'spinors':
        return H.particle(a, b), m
    if how == 'r2':
        return lips.Particle(obj(O.up_of_dn(m)), field=H.F), m
    p = lips.Particle(obj([[H.F(1), H.F(0)], [H.F(0), H.F(1)]]), field=H.F)
    if how == 'r2b':
        p.r2_sp_b = obj(m)
    return p, m


def particles(h1, m1, h2, m2, field='finite field'):
    def body(H):
        H.field(field)
        p, mp = make(H, 'p', h1, m1)
        q, mq = make(H, 'q', h2, m2)
        want = momenta(H, mp, mq)
        iff(H, 'equal exactly when the momenta are', bool(p == q), want)
        iff(H, 'symmetric', bool(q == p), want)
        iff(H, 'unequal exactly when not equal', not bool(p != q), want)
        H.true('reflexive', bool(p == p))
    return body


def others(H=None):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 3)
        for x in (0, 1, None, 'x', [], (1, 2), {}, oPs):
            H.true('particle == %s' % type(x).__name__, not bool(oPs[1] == x))
        for x in (0, None, 'x', [], [oPs[1], oPs[2], oPs[3]], oPs[1]):
            H.true('point == %s' % type(x).__name__, not bool(oPs == x))
    return body


def equal_hash(name):
    """equal by construction: the hashes must agree"""
    def body(H):
        import copy
        import lips
        H.field('finite field')
        with hashing(H) as hs:
            massive = name.startswith('massive')
            p, m = make(H, 'p', 'r2' if massive else 'spinors', massive)
            if name.endswith('copy'):
                q = copy.deepcopy(p)
            elif name == 'massive from P_dn':
                q = lips.Particle(obj([[H.F(1), H.F(0)], [H.F(0), H.F(1)]]), field=H.F)
                q.r2_sp_b = obj(m)
            elif name == 'massive sum':
                r, mr = make(H, 'r', 'spinors', False)
                q = (p + r) - r
            elif name == 'massive multiple':
                q = (p * 3) / 3
            elif name == 'massive negated twice':
                q = -(-p)
            elif name == 'massless from upper indices':
                q = lips.Particle((obj([[H.F(1)], [H.F(1)]]), obj([[H.F(1), H.F(1)]])), field=H.F)
                q.r_sp_u, q.l_sp_u = p.r_sp_u, p.l_sp_u
            elif name == 'massless reassigned':
                q = lips.Particle((obj([[H.F(1)], [H.F(2)]]), obj([[H.F(1), H.F(2)]])), field=H.F)
                q.r_sp_d, q.l_sp_d = p.r_sp_d, p.l_sp_d
            elif name == 'massless with rescaled spinors':
                t = H.var('t')
                H.assume_nonzero(t)
                q = lips.Particle((p.r_sp_d * t, p.l_sp_d / t), field=H.F)
            elif name == 'massless conjugated twice':
                q = copy.deepcopy(p)
                q.angles_for_squares()
                q.angles_for_squares()
            H.true('equal', bool(p == q))
            H.true('equal hashes', same(H, hs(p), hs(q)))
            one = lips.Particles([p, p], field=H.F, fix_mom_cons=False)
            two = lips.Particles([q, q], field=H.F, fix_mom_cons=False)
            H.true('equal points', bool(one == two))
            H.true('equal hashes of points', same(H, hs(one), hs(two)))
    return body


EQH = ('massive copy', 'massless copy', 'massive from P_dn', 'massive sum', 'massive multiple', 'massive negated twice', 'massless from upper indices', 'massless reassigned', 'massless conjugated twice', 'massless with rescaled spinors')


def points(n, m):
    """points whose first legs agree: equal exactly when the numbers of legs and the remaining leg agree"""
    def body(H):
        import lips
        H.field('finite field')
        N = max(n, m)
        oPs, K = kin(H, N)
        a = lips.Particles(list(oPs)[:n], field=H.F, fix_mom_cons=False)
        b = lips.Particles(list(oPs)[:m], field=H.F, fix_mom_cons=False)
        H.true('equal iff as many legs', bool(a == b) == (n == m))
        H.true('symmetric', bool(b == a) == (n == m))
        with hashing(H) as hs:
            if n == m:
                H.true('hashes', same(H, hs(a), hs(b)))
            else:
                H.true('hashes of different points differ', ~same(H, hs(a), hs(b)))
    return body


def one_leg(n, k, massive):
    """leg k of the second point is another particle"""
    def body(H):
        import lips
        H.field('finite field')
        oPs, K = kin(H, n, (n,) if massive and k != n else ())
        p, mp = make(H, 'q', 'r2' if massive else 'spinors', massive)
        b = oPs.copy()
        b[k] = p
        want = momenta(H, K.dn[k - 1], mp)
        iff(H, 'equal exactly when leg %d is' % k, bool(oPs == b), want)
        iff(H, 'symmetric', bool(b == oPs), want)
        iff(H, '!=', not bool(oPs != b), want)
        with hashing(H) as hs:
            if not massive:
                # a hash that depends on every leg: different spinors, different hash
                c = same(H, hs(oPs), hs(b))
                ms = momenta(H, K.dn[k - 1], mp)
                H.true('equal hashes only for equal momenta', ~c | ms)
            else:
                c = same(H, hs(oPs), hs(b))
                H.true('equal hashes only for equal momenta', ~c | want)
    return body


def order(n, i, j):
    def body(H):
        import lips
        H.field('finite field')
        oPs, K = kin(H, n)
        legs = list(oPs)
        legs[i - 1], legs[j - 1] = legs[j - 1], legs[i - 1]
        b = lips.Particles(legs, field=H.F, fix_mom_cons=False)
        iff(H, 'legs %d and %d exchanged' % (i, j), bool(oPs == b), momenta(H, K.dn[i - 1], K.dn[j - 1]))
    return body


def history(k):
    """hashes follow the current kinematics"""
    def body(H):
        import lips
        H.field('finite field')
        oPs, K = kin(H, 4)
        c = oPs.copy()
        a, b = spinor_pair(H, 'new')
        x = H.choose('leg', [1, 2, 3, 4])
        with hashing(H) as hs:
            h0 = hs(oPs)
            H.true('copy', same(H, h0, hs(c)))
            old = L(oPs[x].r2_sp)
            if k == 0:
                c[x].r_sp_d = obj(O.col(a))
            elif k == 1:
                c[x].l_sp_d = obj([b])
            elif k == 2:
                c["⟨%d|" % x] = obj([O.ru(a)])
            elif k == 3:
                c[x] = H.particle(a, b)
            elif k == 4:
                c[x].l_sp_u = obj(O.col(b))
            new = L(c[x].r2_sp)
            ms = momenta(H, old, new)
            H.true('a hash taken before does not change', same(H, h0, hs(oPs)))
            H.true('the hash follows the kinematics', ~same(H, h0, hs(c)) | ms)
            iff(H, 'equality follows the kinematics', bool(oPs == c), ms)
            c[x] = oPs[x]
            H.true('equal again', bool(oPs == c))
            H.true('same hash again', same(H, hs(oPs), hs(c)))
    return body


def scenarios(tier):
    out = []
    asym = with_convention('asymmetric')
    kinds = [('spinors', False), ('r2', False), ('r2', True), ('r2b', True)]
    for a in kinds:
        for b in kinds:
            out.append(Scenario('particles:%s %s' % (a, b), particles(a[0], a[1], b[0], b[1]), setup=asym, max_paths=4000))
    out.append(Scenario('particles:mpc', particles('spinors', False, 'spinors', False, 'mpc'), setup=asym, max_paths=4000))
    out.append(Scenario('other types', others()))
    for nm in EQH:
        out.append(Scenario('equal hash:' + nm, equal_hash(nm), setup=asym))
    for n in range(1, 6):
        for m in range(1, 6):
            out.append(Scenario('points:%d %d' % (n, m), points(n, m), setup=asym))
    for n in ((1, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
        for k in range(1, n + 1):
            for massive in (False, True):
                out.append(Scenario('one leg:%d:%d:%s' % (n, k, massive), one_leg(n, k, massive), setup=asym, max_paths=8000))
    for n, i, j in ((2, 1, 2), (3, 1, 3), (4, 2, 3), (5, 2, 5)):
        out.append(Scenario('order:%d:%d%d' % (n, i, j), order(n, i, j), setup=asym, max_paths=8000))
    for k in range(5):
        out.append(Scenario('history:%d' % k, history(k), setup=asym, max_paths=8000))
    return out
