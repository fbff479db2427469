"""C18: internal masses are part of the point."""
import copy
import itertools
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin
from harness import Scenario

BOUNDS = ("points of 4 to 6 legs with symbolic components; up to three internal masses with symbolic values, given as dictionary, list, tuple or set or assigned later, names of every "
          "form (m, M, μ, underscore, letters, digits); aliases given as expressions; every pair of operations out of copy, image, cluster, assignment of a mass, change of a leg")
OUTSIDE = "names outside the documented form; aliases under relabelling of the legs; internal masses that are sympy expressions (slices)"
ASSUMPTIONS = STD

NAMES = ('mt2', 'mt', 'M', 'μ', 'μ2', 'm_t', 'm_t2', 'MH2', 'mW', 'mt12', 'm12', 'μR')


def base(H, n=5, **kw):
    import lips
    r, l = H.raw_spinors(n)
    ps = [H.particle(a, b) for a, b in zip(r, l)]
    oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False, **kw)
    return oPs, O.Kin(r, l, [O.Pdn(a, b) for a, b in zip(r, l)])


def check(H, label, oPs, want):
    H.true(label + ': names', set(oPs.internal_masses) == set(want), '%r instead of %r' % (sorted(oPs.internal_masses), sorted(want)))
    d = oPs.internal_masses_dict
    H.true(label + ': names in the dictionary', set(d) == set(want), repr(sorted(d)))
    for k, v in want.items():
        if k in d:
            H.eq('%s: %s in the dictionary' % (label, k), d[k], v)
        H.eq('%s: attribute %s' % (label, k), getattr(oPs, k, None), v)
        H.eq('%s: value of %s' % (label, k), oPs(k), v)
        H.eq('%s: value of 2*%s-s_12' % (label, k), oPs('2*%s-s_12' % k), 2 * v - oPs('s_12'))


def from_dict(names):
    def body(H):
        H.field('finite field')
        given = {m: H.var(m) for m in names}
        keep = dict(given)
        oPs, K = base(H, internal_masses=given)
        check(H, 'given', oPs, keep)
        H.true('the dictionary given is not modified', set(given) == set(keep) and all(given[k] is keep[k] for k in given))
        oPs.internal_masses_dict['mx'] = 1
        x = H.var('new')
        setattr(oPs, names[0], x)
        keep2 = dict(keep)
        keep2[names[0]] = x
        check(H, 'after an assignment', oPs, keep2)
        if isinstance(given.get(names[0]), type(x)):
            H.eq('the dictionary given afterwards', given[names[0]], keep[names[0]])
    return body


def from_names(names, form):
    def body(H):
        H.field('finite field')
        oPs, K = base(H, internal_masses=form(names))
        first = dict(oPs.internal_masses_dict)
        H.true('names', set(first) == set(names), repr(sorted(first)))
        for m in names:
            if m in first and (first[m] is None or isinstance(first[m], str)):
                H.fail('%s has a value' % m, repr(first[m]))
                return
        check(H, 'drawn', oPs, first)
        x = H.var('later')
        oPs.mlater = x
        first['mlater'] = x
        check(H, 'one more', oPs, first)
    return body


def none(H):
    H.field('finite field')
    oPs, K = base(H)
    check(H, 'none', oPs, {})
    for k in ('mt2', 'μ'):
        try:
            got = oPs(k)
            H.fail('evaluating the unknown %s' % k, 'gave %r' % (got,))
        except Exception:
            H.true('raises', True)
    other, _ = base(H)
    x = H.var('x')
    oPs.mt2 = x
    check(H, 'assigned', oPs, {'mt2': x})
    check(H, 'another point', other, {})


def refused(what):
    def body(H):
        import lips
        H.field('finite field')
        try:
            base(H, internal_masses=what)
            H.fail('internal masses given as %r' % (what,), 'accepted')
        except Exception:
            H.true('refused', True)
    return body


OPS = ('copy', 'deepcopy', 'copy.copy', 'image', 'conjugate', 'permutation', 'cluster', 'cluster fermions')


def derived(op, side):
    """derived points have the masses, and from then on both have their own"""
    def body(H):
        H.field('finite field')
        m = {'mt2': H.var('mt2'), 'μ': H.var('μ')}
        oPs, K = base(H, 6, internal_masses=dict(m))
        if op == 'copy':
            c = oPs.copy()
        elif op == 'deepcopy':
            c = copy.deepcopy(oPs)
        elif op == 'copy.copy':
            c = copy.copy(oPs).copy()
        elif op == 'image':
            c = oPs.image(('231645', False))
        elif op == 'conjugate':
            c = oPs.image(('123456', True))
        elif op == 'permutation':
            c = oPs.image('654321')
        elif op == 'cluster':
            c = oPs.cluster([[1], [2, 3], [4], [5, 6]])
        else:
            c = oPs.cluster([[1], [2], [3, 4], [5, 6]], massive_fermions=((3, 'u', all), (4, 'd', all)))
        check(H, 'derived', c, m)
        check(H, 'original', oPs, m)
        x, y = H.var('x'), H.var('y')
        ch, un = (c, oPs) if side == 'derived' else (oPs, c)
        ch.mt2 = x
        ch.mw = y
        check(H, 'changed one', ch, {'mt2': x, 'μ': m['μ'], 'mw': y})
        check(H, 'the other one', un, m)
    return body


def kept(what):
    """operations on the legs do not touch the masses"""
    def body(H):
        import lips.particles as mod
        H.field('finite field')
        m = {'mt2': H.var('mt2'), 'μ': H.var('μ')}
        oPs, K = base(H, 5, internal_masses=dict(m))
        with patched((mod, 'random', FakeRandom(H, 8))):
            if what == 'leg':
                oPs[2].r_sp_d = obj(O.col([H.var('a'), H.var('b')]))
            elif what == 'fix_mom_cons':
                oPs.fix_mom_cons(1, 2, axis=1)
            elif what == 'angles_for_squares':
                oPs.angles_for_squares()
            elif what == 'checks':
                oPs.fix_mom_cons(1, 2, axis=1)
                oPs.momentum_conservation_check()
                oPs.onshell_relation_check()
            elif what == 'delete':
                del oPs[5]
            elif what == 'insert':
                oPs.insert(2, H.particle(*spinor_pair(H, 'q')))
        check(H, what, oPs, m)
    return body


ALIASES = {'s_12': lambda K: O.det2(O.madd(K.dn[0], K.dn[1])), 's_123': lambda K: O.det2(O.madd(O.madd(K.dn[0], K.dn[1]), K.dn[2])),
           '⟨1|2⟩[2|1]': lambda K: O.ang(K.r[0], K.r[1]) * O.sqr(K.l[1], K.l[0]), 'mt2': None, '2s_12-mt2': None, 's_12/s_34': None}


def alias(text):
    """an expression as mass: its value is that of the expression at the point as it is"""
    def body(H):
        H.field('finite field')
        x = H.var('mt2')
        oPs, K = base(H, 5, internal_masses={'mt2': x, 'mh2': text})

        def s(K, *ii):
            t = [[0, 0], [0, 0]]
            for i in ii:
                t = O.madd(t, K.dn[i - 1])
            return O.det2(t)

        def want(K, x):
            if text == 'mt2':
                return x
            if text == '2s_12-mt2':
                return 2 * s(K, 1, 2) - x
            if text == 's_12/s_34':
                H.assume_nonzero(s(K, 3, 4))
                return s(K, 1, 2) / s(K, 3, 4)
            return ALIASES[text](K)
        H.eq('alias', oPs('mh2'), want(K, x))
        H.eq('alias in an expression', oPs('3mh2+mt2'), 3 * want(K, x) + x)
        c = oPs.copy()
        H.eq('alias of the copy', c('mh2'), want(K, x))
        r = [H.var('na'), H.var('nb')]
        oPs[1].r_sp_d = obj(O.col(r))
        y = H.var('ny')
        oPs.mt2 = y
        K2 = O.Kin([r] + K.r[1:], K.l, [O.Pdn(r, K.l[0])] + K.dn[1:])
        H.eq('alias after a change of the point', oPs('mh2'), want(K2, y))
        H.eq('alias of the copy afterwards', c('mh2'), want(K, x))
        z = H.var('z')
        oPs.mh2 = z
        H.eq('alias replaced by a number', oPs('mh2'), z)
        H.eq('alias of the copy in the end', c('mh2'), want(K, x))
    return body


def scenarios(tier):
    out = []
    F = dict(fields=['finite field', 'mpc'], setup=with_convention('asymmetric'))
    for ms in [(m,) for m in NAMES] + [('mt2', 'mt'), ('m_t', 'mt', 'μ'), ('M', 'm12')] + ([] if tier == 'quick' else list(itertools.combinations(NAMES, 2))):
        out.append(Scenario('dict:%s' % ','.join(ms), from_dict(ms), **F))
    for form in (list, tuple, set):
        for ms in (('mt2',), ('mt2', 'μ', 'M_H')):
            out.append(Scenario('%s:%s' % (form.__name__, ','.join(ms)), from_names(ms, form), **F))
    out.append(Scenario('none', none, **F))
    for w in (3, 'mt2', [1, 2]):
        out.append(Scenario('refused:%r' % (w,), refused(w), **F))
    for op in OPS:
        for side in ('derived', 'original'):
            out.append(Scenario('%s:%s changed' % (op, side), derived(op, side), **F))
    for w in ('leg', 'fix_mom_cons', 'angles_for_squares', 'checks', 'delete', 'insert'):
        out.append(Scenario('kept:%s' % w, kept(w), **F))
    for a in ALIASES:
        out.append(Scenario('alias:%s' % a, alias(a), **F))
    return out
