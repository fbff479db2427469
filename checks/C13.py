"""C13: asking a question does not change the point; copies, images, clusters and sums are independent of what they were made from."""
import itertools
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin
from harness import Scenario

BOUNDS = ("points of 6 legs with symbolic components (massless, or two legs massive) and a symbolic internal mass; every query of the public interface (about 60 evaluations, "
          "checks, arithmetic, comparisons, conversions), followed by a comparison of every representation of every leg; every derived object (copy, image, cluster, "
          "sum, difference, multiple) changed by every mutator, followed by the same comparison of its source, and conversely the source changed and the derived object compared")
OUTSIDE = "slices of a point, which share their particles with it as Python lists do; arrays handed in by the caller, which the particle keeps"
ASSUMPTIONS = STD

NAMES = ('r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u', 'r2_sp', 'r2_sp_b', 'four_mom', 'four_mom_d')


def snap(oPs):
    return [{k: (None if getattr(p, k) is None else L(getattr(p, k))) for k in NAMES} for p in oPs] + [{k: L(getattr(oPs.oRefVec, k)) for k in NAMES[:6]}], dict(oPs.internal_masses_dict), len(oPs)


def compare(H, label, oPs, s):
    now = snap(oPs)
    H.true(label + ': number of legs', now[2] == s[2])
    H.true(label + ': names of internal masses', set(now[1]) == set(s[1]))
    for k in s[1]:
        H.eq(label + ': ' + k, now[1][k], s[1][k])
    for i, (a, b) in enumerate(zip(s[0], now[0]), 1):
        for k in a:
            if a[k] is None or b[k] is None:
                H.true('%s: leg %d %s' % (label, i, k), a[k] is None and b[k] is None)
            else:
                H.eq('%s: leg %d %s' % (label, i, k), obj(b[k]), obj(a[k]))


def QUERIES(oPs, H):
    import lips
    from lips.tools import ldot
    out = []
    for s in ("⟨1|2⟩", "[3|4]", "<12>", "⟨1|", "|2⟩", "[3|", "|4]", "⟨1|2+5|4]", "⟨1|2|3|4⟩", "[1|(5+6)|2|3]", "|2|3]", "⟨1|5|", "|5|6|", "s_12", "s_123", "S34", "m_5", "tr(1|2)", "tr(1+2|3-5)", "tr5(1|2|3|4)",
              "tr5_1234", "Δ_12|34|56", "Δ_135", "Ω_135", "Π_135", "mt2", "2mt2⟨1|2⟩-s_34/3", "s_12^2/s_34", "⟨1|2⟩[3|4]⟨1|2+3|4]", "|1⟩[2|", "[1^|5+6|2_⟩", "tr(1|2|3|4)"):
        out.append(('compute ' + s, lambda s=s: oPs.compute(s)))
        if len(s) % 3 == 0:
            out.append(('call ' + s, lambda s=s: oPs(s)))
    out += [('item |2⟩', lambda: oPs["|2⟩"]), ('item 3', lambda: oPs[3]), ('slice', lambda: oPs[1:4]), ('len', lambda: len(oPs)), ('total_mom', lambda: oPs.total_mom), ('m2s', lambda: oPs.m2s),
            ('multiplicity', lambda: oPs.multiplicity), ('internal_masses_dict', lambda: oPs.internal_masses_dict), ('image', lambda: oPs.image(("231645", True))), ('image of a permutation', lambda: oPs.image("654321")),
            ('copy', lambda: oPs.copy()), ('cluster', lambda: oPs.cluster([[1], [2, 3], [4, 5, 6]])), ('cluster fermions', lambda: oPs.cluster([[1, 3], [4, 6], [2], [5]], massive_fermions=((1, 'u', all), (2, 'd', 1)))),
            ('analytical_subs_d', lambda: oPs.analytical_subs_d()), ('ldot', lambda: oPs.ldot(1, 2)), ('ldot of particles', lambda: ldot(oPs[1], oPs[2])), ('ijk_to_3Ks', lambda: oPs.ijk_to_3Ks([1, 3, 5])),
            ('sum', lambda: oPs[1] + oPs[2]), ('sum of legs', lambda: sum(oPs[i] for i in (1, 2, 5))), ('difference', lambda: oPs[1] - oPs[5]), ('minus', lambda: -oPs[5]), ('multiple', lambda: 3 * oPs[1]), ('multiple on the right', lambda: oPs[1] * 2),
            ('quotient', lambda: oPs[1] / 2), ('mass', lambda: oPs[5].m2), ('field extension', lambda: oPs.spinors_are_in_field_extension), ('lsq', lambda: oPs[5].lsq()),
            ('momentum_conservation_check', lambda: oPs.momentum_conservation_check()), ('onshell_relation_check', lambda: oPs.onshell_relation_check()), ('comparison', lambda: oPs[1] == oPs[1]), ('is zero', lambda: oPs == 0)]
    return out


def queries(massive, part):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 6, massive)
        oPs.mt2 = H.var('mt2')
        s = snap(oPs)
        qs = QUERIES(oPs, H)[part::4]
        for name, q in qs:
            try:
                q()
            except (SyntaxError, NotImplementedError):
                pass                            # refused for massive legs
            compare(H, name, oPs, s)
        H.true('queries were made', len(qs) > 5)
    return body


DERIVED = {
    'copy': lambda o: o.copy(), 'image': lambda o: o.image(("123456", False)), 'conjugate image': lambda o: o.image(("213456", True)), 'permuted': lambda o: o.image("654321"),
    'cluster': lambda o: o.cluster([[1], [2], [3, 4], [5, 6]]), 'cluster of single legs': lambda o: o.cluster([[1], [2], [3], [4], [5], [6]]),
    'fermions': lambda o: o.cluster([[1], [2], [3, 4], [5, 6]], massive_fermions=((3, 'u', all), (4, 'd', 2))), 'conjugate of a cluster': lambda o: o.cluster([[1], [2], [3, 4], [5, 6]], massive_fermions=((3, 'u', all), (4, 'd', all))).image(("1234", True)),
    'deep copy': lambda o: __import__('copy').deepcopy(o), 'product of image': lambda o: o.image(("123456", True)).image(("123456", True)),
}


def mutators(H, d, tag):
    a, b = spinor_pair(H, 'new' + tag)
    ms = [
        ('right spinor', lambda: setattr(d[1], 'r_sp_d', obj(O.col(a)))), ('left spinor', lambda: setattr(d[2], 'l_sp_u', obj(O.col(b)))), ('by key', lambda: d.__setitem__("⟨1|", obj([a]))),
        ('momentum', lambda: setattr(d[2], 'r2_sp', obj(O.up_of_dn(O.Pdn(a, b))))), ('component of a spinor', lambda: d[1].r_sp_d.__setitem__((0, 0), a[0])), ('component of [1|', lambda: d[1].l_sp_d.__setitem__((0, 1), b[0])),
        ('component of the momentum', lambda: d[2].r2_sp.__setitem__((0, 1), a[1])), ('component of P_dn', lambda: d[1].r2_sp_b.__setitem__((1, 1), a[1])), ('conjugation', lambda: d.angles_for_squares()),
        ('replaced leg', lambda: d.__setitem__(1, H.particle(a, b))), ('deleted leg', lambda: d.__delitem__(1)), ('internal mass', lambda: setattr(d, 'mt2', a[0])), ('new internal mass', lambda: setattr(d, 'mb', a[0])),
        ('inserted leg', lambda: d.insert(1, H.particle(a, b))), ('reference vector', lambda: setattr(d.oRefVec, 'r_sp_d', obj(O.col(a)))),
    ]
    return ms


def derived(name, k, back):
    """change the derived object: the source stays; change the source: the derived object stays"""
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 6)
        oPs.mt2 = H.var('mt2')
        d = DERIVED[name](oPs)
        changed, kept = (oPs, d) if back else (d, oPs)
        s = snap(kept)
        lab, m = mutators(H, changed, name)[k]
        m()
        compare(H, '%s, %s of the %s' % (name, lab, 'source' if back else 'result'), kept, s)
    return body


def analytic(name):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 6)
        oPs.mt2 = H.var('mt2')
        d = DERIVED[name](oPs)
        s = snap(oPs)
        d.make_analytical_d()
        compare(H, '%s made analytical' % name, oPs, s)
        d = DERIVED[name](oPs)
        d.fix_mom_cons(1, 2)
        compare(H, '%s with momentum conservation restored' % name, oPs, s)
    return body


ARITH = {'p + 0': lambda p, q: p + 0, '0 + p': lambda p, q: 0 + p, 'p - 0': lambda p, q: p - 0, 'sum([p])': lambda p, q: sum([p]), 'p + q': lambda p, q: p + q, 'p - q': lambda p, q: p - q, '1*p': lambda p, q: 1 * p, 'p*1': lambda p, q: p * 1,
         'p/1': lambda p, q: p / 1, '-p': lambda p, q: -p, '-(-p)': lambda p, q: -(-p), 'deep copy': lambda p, q: __import__('copy').deepcopy(p)}


def particle(name):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 2)
        p, q = oPs[1], oPs[2]
        s = snap(oPs)
        a, b = spinor_pair(H, 'new')
        for what in ('r_sp_d', 'l_sp_d', 'r2_sp', 'r2_sp_b', 'four_mom'):
            r = ARITH[name](p, q)
            H.true('a new particle', r is not p and r is not q)
            arr = getattr(r, what)
            if arr is None:
                continue
            arr[(0, 0) if arr.ndim == 2 else 0] = a[0]
            compare(H, '%s, %s changed in place' % (name, what), oPs, s)
        r = ARITH[name](p, q)
        r.angles_for_squares()
        compare(H, '%s, conjugated' % name, oPs, s)
        r = ARITH[name](p, q)
        keep = {k: L(getattr(r, k)) for k in NAMES[:6] if getattr(r, k) is not None}
        p.r_sp_d[0, 0] = a[0]
        q.l_sp_d[0, 1] = b[0]
        p.r2_sp[1, 1] = b[1]
        for k in keep:
            H.eq('%s: the result keeps %s when the operands change in place' % (name, k), getattr(r, k), obj(keep[k]))
    return body


def scenarios(tier):
    out = []
    for massive in ((), (5, 6)):
        for part in range(4):
            out.append(Scenario('queries:%s:%d' % ('massive' if massive else 'massless', part), queries(massive, part), max_paths=100, setup=with_convention('asymmetric')))
    for name in DERIVED:
        for k in range(15):
            for back in (False, True):
                out.append(Scenario('%s:%s:%d' % (name, 'source changed' if back else 'result changed', k), derived(name, k, back), setup=with_convention('asymmetric')))
        if name not in ('conjugate of a cluster', 'fermions', 'cluster'):
            out.append(Scenario('analytic:%s' % name, analytic(name)))
    for name in ARITH:
        out.append(Scenario('particle:%s' % name, particle(name), setup=with_convention('asymmetric')))
    return out
