import numpy
import oracle as O
from harness import Scenario, SymField   # noqa: F401
from symx import Sym

FIELDS = ['mpc', 'finite field']
ASSUME_GENERIC = ("symbolic scalars range over the reals (Gaussian pairs where complex numbers occur); a polynomial identity over the reals "
                  "holds over every field of characteristic 0 and, its coefficients being integers with denominators powers of 2, modulo every odd prime")
ASSUME_DEN = "points where the code itself divides by zero are outside the claim (it raises there); every division contributes 'denominator != 0' to the path condition"
ASSUME_EXACT = "arithmetic is exact: rounding of the mpc field is not modelled"
ASSUME_TRUST = "trusted: CPython, numpy object-array arithmetic, z3, and the symbolic scalar class (lib/symx.py); counterexamples are replayed on real field elements before being reported"
STD = [ASSUME_GENERIC, ASSUME_DEN, ASSUME_EXACT, ASSUME_TRUST]


def L(x):
    """numpy array -> nested list"""
    return numpy.asarray(x, dtype=object).tolist()


def obj(x):
    return numpy.array(x, dtype=object)


def is_ff(H):
    return (not H.symbolic) and H.F.name in ('finite field', 'padic', 'rational')


def consistent(H, label, p, massless=True, mom=None):
    """All representations held by particle p describe one momentum.  mom: P_{α α.} it must be (or None)."""
    dn = L(p.r2_sp_b)
    H.eq(label + ': rank-two shapes', obj([p.r2_sp.shape, p.r2_sp_b.shape]), obj([(2, 2), (2, 2)]))
    if mom is not None:
        H.eq(label + ': P_dn', p.r2_sp_b, obj(mom))
    H.eq(label + ': P^up is P_dn with raised indices', p.r2_sp, obj(O.up_of_dn(dn)))
    if not (is_ff(H) and p.four_mom is None):
        if p.four_mom is None:
            H.fail(label + ': four momentum', 'undefined')
        else:
            f = O.four(dn, 1j)
            H.eq(label + ': four momentum', obj(p.four_mom), obj(f))
            H.eq(label + ': four momentum with lower index', obj(p.four_mom_d), obj([f[0], -f[1], -f[2], -f[3]]))
    H.eq(label + ': m2 is the determinant', p.m2, O.det2(dn))
    if massless:
        for nm in ('r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u'):
            if getattr(p, nm) is None:
                H.fail(label + ': ' + nm, 'undefined')
                return
        H.eq(label + ': spinor shapes', obj([p.r_sp_d.shape, p.r_sp_u.shape, p.l_sp_d.shape, p.l_sp_u.shape]), obj([(2, 1), (1, 2), (1, 2), (2, 1)]))
        r = [p.r_sp_d[0, 0], p.r_sp_d[1, 0]]
        l = [p.l_sp_d[0, 0], p.l_sp_d[0, 1]]
        H.eq(label + ': <i| from |i>', p.r_sp_u, obj([O.ru(r)]))
        H.eq(label + ': |i] from [i|', p.l_sp_u, obj(O.col(O.lu(l))))
        H.eq(label + ': P_dn is |i>[i|', p.r2_sp_b, obj(O.Pdn(r, l)))
        H.eq(label + ': P^up is |i]<i|', p.r2_sp, obj(O.Pup(r, l)))


def spinor_pair(H, tag):
    return [H.var(tag + 'a'), H.var(tag + 'b')], [H.var(tag + 'c'), H.var(tag + 'd')]


def with_convention(conv):
    def setup():
        import lips
        lips.spinor_convention = conv
    return setup


def reset():
    import lips
    lips.spinor_convention = 'symmetric'


class FakeRandom(object):
    """Nondeterministic stand-in for the `random` module as seen by one lips module: every draw is a choice made by the
    solver (or, on replay, the choice recorded in the counterexample)."""

    def __init__(self, H, draws=4):
        self._H, self._left = H, draws

    def _draw(self, name, options):
        if self._left <= 0 and self._H.symbolic:
            import symx
            raise symx.Abandon()           # bound on the number of draws
        self._left -= 1
        return self._H.choose(name, options)

    def seed(self, *a):
        return None

    def getstate(self):
        return None

    def setstate(self, s):
        return None

    def sample(self, pop, k):
        pop, out = list(pop), []
        for _ in range(k):
            x = self._draw('sample', pop)
            out.append(x)
            pop.remove(x)
        return out

    def choice(self, pop):
        return self._draw('choice', list(pop))

    def randrange(self, *a):
        return self._draw('randrange', list(range(*a))[:4])

    def randint(self, a, b):
        return self._draw('randint', list(range(a, b + 1))[:4])

    def shuffle(self, xs):
        ys = self.sample(list(xs), len(xs))
        xs[:] = ys


class patched(object):
    """Temporarily replace attributes of modules; attributes a module does not have are left alone."""

    def __init__(self, *triples):
        self.triples = [(m, n, v) for m, n, v in triples if m is not None and hasattr(m, n)]

    def __enter__(self):
        self.old = [(m, n, getattr(m, n)) for m, n, _ in self.triples]
        for m, n, v in self.triples:
            setattr(m, n, v)
        return self

    def __exit__(self, *a):
        for m, n, v in self.old:
            setattr(m, n, v)
        return False


def zeros(shape=(2, 2)):
    return numpy.zeros(shape, dtype=int).astype(object)


def conserved(H, label, oPs):
    """Total momentum zero and every representation of every leg consistent with that."""
    tot = [[0, 0], [0, 0]]
    for p in oPs:
        tot = O.madd(tot, L(p.r2_sp_b))
    H.eq(label + ': momentum is conserved', obj(tot), zeros())
    H.eq(label + ': total_mom', oPs.total_mom, zeros())
