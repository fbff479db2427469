"""C07: generated phase-space points are on shell and conserve momentum."""
import oracle as O
from checks.common import *   # noqa
from checks.C06 import im
from harness import Scenario

BOUNDS = ("3 to 6 legs (thorough: 8); every random number a symbolic value, every random pair of legs a nondeterministic choice; the four families of field "
          "(spinor-based generation), the complex floating-point generation from three-momenta, real momenta (energy root symbolic), re-randomisation of an existing point, twistor generation for 4 to 6 legs; "
          "rejection loop unrolled twice")
OUTSIDE = "statistical quality of the points; seeding; rounding; random values for which a denominator of the construction vanishes"
ASSUMPTIONS = STD + ["a square root is any number whose square is the argument"]


class Frac(object):
    """stand-in for the source of random rationals of the floating-point generator"""

    def __init__(self, H, limit):
        self.H, self.left = H, limit

    def __call__(self):
        if self.left <= 0 and self.H.symbolic:
            import symx
            raise symx.Abandon()
        self.left -= 1
        return self.H.real('frac')


def point(H, lab, oPs, n, real=False):
    H.true(lab + ': number of legs', len(oPs) == n and oPs.multiplicity == n)
    conserved(H, lab, oPs)
    for i, p in enumerate(list.__iter__(oPs), 1):
        H.eq('%s: leg %d on shell' % (lab, i), p.m2, 0)
        if p.r_sp_d is not None:
            r, l = [p.r_sp_d[0, 0], p.r_sp_d[1, 0]], [p.l_sp_d[0, 0], p.l_sp_d[0, 1]]
            H.eq('%s: leg %d momentum is |i>[i|' % (lab, i), p.r2_sp_b, obj(O.Pdn(r, l)))
            H.eq('%s: leg %d up' % (lab, i), p.r2_sp, obj(O.up_of_dn(O.Pdn(r, l))))
        if real:
            for k in range(4):
                H.eq('%s: leg %d component %d real' % (lab, i, k), im(p.four_mom[k]), 0)


def mods():
    import lips.particles as LP
    import lips.particle as LQ
    return LP, LQ


def in_field(n, name):
    def body(H):
        import lips
        LP, LQ = mods()
        H.field(name)
        with patched((LP, 'random', FakeRandom(H))):
            oPs = lips.Particles(n, field=H.F)
        point(H, 'new', oPs, n)
    return body


def rerandomise(n, how):
    def body(H):
        import lips
        LP, LQ = mods()
        H.field('finite field')
        oPs, _ = H.raw(n)
        with patched((LP, 'random', FakeRandom(H))):
            if how == 'all':
                oPs.randomise_all()
            else:
                for p in oPs:
                    p.randomise()
                oPs.fix_mom_cons()
        point(H, how, oPs, n)
    return body


def single(real, conv):
    """one particle of the floating-point generator: massless, spinors factorise its momentum"""
    def body(H):
        import lips
        LP, LQ = mods()
        H.field('finite field', complex_sqrt=True)
        with patched((LQ, 'rand_frac', Frac(H, 12 if not real else 6))):
            p = lips.Particle(field=H.F)
            p.randomise_mpc(real_momentum=real)
        f = L(p.four_mom)
        H.eq('massless', O.mink(f, f), 0)
        H.eq('rank two', p.r2_sp_b, obj(O.dn_of_four(f, 1j)))     # (with 'massless': its determinant vanishes)
        if conv == 'asymmetric' and not real:
            pass                      # spinors from a given momentum: C01
        elif p.r_sp_d is not None:
            H.eq('spinors', p.r2_sp_b, obj(O.Pdn([p.r_sp_d[0, 0], p.r_sp_d[1, 0]], [p.l_sp_d[0, 0], p.l_sp_d[0, 1]])))
        else:
            H.eq('no spinors only on the negative z axis', f[0] + f[3], 0)
        if real:
            for k in range(1, 4):
                H.eq('component %d real' % k, im(f[k]), 0)
            H.eq('energy squared', f[0] * f[0], f[1] * f[1] + f[2] * f[2] + f[3] * f[3])
        H.true('not null', ~(H.cond_eq(f[0], 0) & H.cond_eq(f[1], 0) & H.cond_eq(f[2], 0) & H.cond_eq(f[3], 0)))
    return body


def mpc_points(n, real):
    """complete floating-point points: generation of each leg is replaced by its contract (any massless momentum, checked
    by `single`), conservation by the real code"""
    def body(H):
        import lips
        LP, LQ = mods()
        H.field('finite field', complex_sqrt=True)

        def massless(self, real_momentum=False):
            # any massless momentum with p0+p3 != 0: four_mom from two free spinors (real: from the light-cone form)
            if real_momentum:
                t, x, y = H.real('t'), H.real('x'), H.real('y')
                H.assume_nonzero(t)
                pm = (x * x + y * y) / t
                self.four_mom = numpy.array([(t + pm) / 2, x, y, (t - pm) / 2], dtype=object)
            else:
                t, x, y = H.var('t'), H.var('x'), H.var('y')
                H.assume_nonzero(t)
                self.r2_sp_b = numpy.array([[t, x], [y, x * y / t]], dtype=object)
        with patched((LP, 'random', FakeRandom(H)), (LQ.Particle, 'randomise', massless)):
            oPs = lips.Particles(n, field=H.F, real_momenta=real)
        conserved(H, 'new', oPs)
        for i, p in enumerate(list.__iter__(oPs), 1):
            H.eq('leg %d on shell' % i, p.m2, 0)
            if real:
                for k in range(4):
                    H.eq('leg %d component %d real' % (i, k), im(p.four_mom[k]), 0)
    return body


def twistor(n):
    def body(H):
        H.field('finite field', complex_sqrt=True)
        oPs, _ = H.raw(n)
        oPs.randomise_twistor()
        conserved(H, 'twistor', oPs)
        for i, p in enumerate(list.__iter__(oPs), 1):
            H.eq('leg %d on shell' % i, p.m2, 0)
            f = L(p.four_mom)
            H.eq('leg %d rank two' % i, p.r2_sp_b, obj(O.dn_of_four(f, 1j)))
    return body


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for n in ((3, 4, 5, 6) if q else (3, 4, 5, 6, 7, 8)):
        for name in (('finite field', 'padic') if n > 4 else ('finite field', 'padic', 'rational', 'gaussian rational')):
            if n > 5 and name != 'finite field':
                continue
            out.append(Scenario('new point:%d:%s' % (n, name), in_field(n, name), fields=[name], max_paths=4000))
        if n <= 6:
            out.append(Scenario('randomise_all:%d' % n, rerandomise(n, 'all')))
            out.append(Scenario('randomise each then conserve:%d' % n, rerandomise(n, 'each')))
    for conv in ('symmetric', 'asymmetric'):
        st = with_convention(conv)
        for real in (False, True):
            out.append(Scenario('floating point leg:%s:%s' % (conv, 'real' if real else 'complex'), single(real, conv), setup=st, fields=['mpc']))
        for n in ((4, 5) if q else (3, 4, 5, 6)):
            if conv == 'asymmetric' or n == 4:
                out.append(Scenario('floating point:%s:%d:complex' % (conv, n), mpc_points(n, False), setup=st, fields=['mpc'], max_paths=4000))
            if conv == 'asymmetric':       # (symmetric convention, real momenta: C06 has every leg pair)
                out.append(Scenario('floating point:%s:%d:real' % (conv, n), mpc_points(n, True), setup=st, fields=['mpc'], max_paths=4000))
    for n in ((4, 5) if q else (4, 5, 6, 7)):
        out.append(Scenario('twistors:%d' % n, twistor(n), setup=with_convention('asymmetric'), fields=['mpc']))
    return out
