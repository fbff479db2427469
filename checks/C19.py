"""C19: analytical points, ideals built from them and changes of field describe the same kinematics."""
import itertools
import re
from fractions import Fraction
import oracle as O
import symx
from checks.common import *   # noqa
from checks.C03 import kin
from checks.C12 import comp_env
from harness import Scenario, SymField, P31

BOUNDS = ("analytical points of 2 to 6 legs, any subset of the components of two legs kept numerical; 20 kinds of covariant and invariant per multiplicity evaluated on analytical points "
          "and in the generators of ideals; ideals of up to three covariants for 3 to 6 legs; conversion between components and brackets for 3 to 6 legs; substitution into points with "
          "components linear and quadratic in up to two parameters; change of field of points of 3 to 5 legs (massless, massive legs, fermions) through an arbitrary homomorphism")
OUTSIDE = "what Singular computes from the generators (primary decompositions, points on varieties, slices); fields without a homomorphism between them"
ASSUMPTIONS = STD + ["polynomials produced with sympy are read as polynomials with rational coefficients and evaluated at the symbolic point; sympy's own arithmetic is part of the code under test",
                     "a change of field is modelled as an arbitrary ring homomorphism: every input p is mapped to a fresh unknown φ(p)"]

LETTERS = 'abcd'


def poly(H, e, env):
    """value at env of a sympy expression (or its text), coefficients rational"""
    import sympy
    e = sympy.sympify(str(e).replace('^', '**')) if isinstance(e, str) else sympy.sympify(e)
    e = sympy.expand(e)
    syms = sorted(e.free_symbols, key=str)
    if not syms:
        return H.const(_q(e))
    tot = 0
    for mon, c in sympy.Poly(e, *syms).terms():
        t = H.const(_q(c))
        for s, k in zip(syms, mon):
            for _ in range(k):
                t = t * env[str(s)]
        tot = tot + t
    return tot


def _q(c):
    import sympy
    c = sympy.nsimplify(c)
    if not c.is_Rational:
        raise ValueError('coefficient %r' % (c,))
    return Fraction(int(c.p), int(c.q))


def named(H, n, tag=''):
    """symbolic components for the symbols a1, b1, c1, d1, ..."""
    return {'%s%d' % (x, i): H.var('%s%s%d' % (tag, x, i)) for i in range(1, n + 1) for x in LETTERS}


def K_of(env, n, name=lambda x, i: '%s%d' % (x, i)):
    r = [[env[name('a', i)], env[name('b', i)]] for i in range(1, n + 1)]
    l = [[env[name('c', i)], env[name('d', i)]] for i in range(1, n + 1)]
    return O.Kin(r, l, [O.Pdn(x, y) for x, y in zip(r, l)])


def terms(n):
    """(text, oracle)"""
    def s(*ii):
        return lambda K: O.det2(_sum(K, ii))
    out = [('⟨1|2⟩', lambda K: O.ang(K.r[0], K.r[1])), ('[1|2]', lambda K: O.sqr(K.l[0], K.l[1])), ('s_12', s(1, 2)), ('⟨2|1⟩[1|2]', lambda K: O.ang(K.r[1], K.r[0]) * O.sqr(K.l[0], K.l[1]))]
    if n >= 3:
        out += [('⟨1|3⟩', lambda K: O.ang(K.r[0], K.r[2])), ('[3|2]', lambda K: O.sqr(K.l[2], K.l[1])), ('s_123', s(1, 2, 3)), ('⟨1|2|3]', lambda K: O.ang(K.r[0], K.r[1]) * O.sqr(K.l[1], K.l[2])),
                ('⟨1|2⟩[2|3]-2⟨1|3⟩[1|3]', lambda K: O.ang(K.r[0], K.r[1]) * O.sqr(K.l[1], K.l[2]) - 2 * O.ang(K.r[0], K.r[2]) * O.sqr(K.l[0], K.l[2])),
                ('⟨1|2⟩^2', lambda K: O.ang(K.r[0], K.r[1]) ** 2)]
    if n >= 4:
        out += [('⟨1|2+3|4]', lambda K: O.ang(K.r[0], K.r[1]) * O.sqr(K.l[1], K.l[3]) + O.ang(K.r[0], K.r[2]) * O.sqr(K.l[2], K.l[3])),
                ('s_12-s_34', lambda K: s(1, 2)(K) - s(3, 4)(K)),
                ('[1|2+3|1⟩', lambda K: -(O.sqr(K.l[0], K.l[1]) * O.ang(K.r[0], K.r[1]) + O.sqr(K.l[0], K.l[2]) * O.ang(K.r[0], K.r[2])))]
    return out


def _sum(K, ii):
    t = [[0, 0], [0, 0]]
    for i in ii:
        t = O.madd(t, K.dn[i - 1])
    return t


# ------------------------------------------------------------------------------------------------- analytical points

def sympoint(n, tag='p'):
    """a real point of lips whose components are sympy symbols p1a, ... (unknowns of the starting point)"""
    import lips
    import sympy
    from syngular import Field
    F = Field('rational', 0, 0)
    ps = []
    for i in range(1, n + 1):
        a, b, c, d = [sympy.Symbol('%s%d%s' % (tag, i, x)) for x in LETTERS]
        ps.append(lips.Particle((obj([[a], [b]]), obj([[c, d]])), field=F))
    return lips.Particles(ps, field=F, fix_mom_cons=False)


def legs_are(H, label, oPs, K, env):
    """every leg of the analytical point, evaluated at env, is the leg of K in all representations"""
    def ev(x):
        return obj([[poly(H, e, env) for e in row] for row in L(x)])
    for i, p in enumerate(oPs):
        lab = '%s: leg %d ' % (label, i + 1)
        H.eq(lab + '|i>', ev(p.r_sp_d), obj(O.col(K.r[i])))
        H.eq(lab + '[i|', ev(p.l_sp_d), obj([K.l[i]]))
        H.eq(lab + '<i|', ev(p.r_sp_u), obj([O.ru(K.r[i])]))
        H.eq(lab + '|i]', ev(p.l_sp_u), obj(O.col(O.lu(K.l[i]))))
        H.eq(lab + 'P_dn', ev(p.r2_sp_b), obj(O.Pdn(K.r[i], K.l[i])))
        H.eq(lab + 'P^up', ev(p.r2_sp), obj(O.Pup(K.r[i], K.l[i])))


def analytical(n, symbols=None):
    def body(H):
        H.field('rational')
        oPs = sympoint(n)
        kw = {} if symbols is None else {'symbols': symbols}
        oPs.make_analytical_d(**kw)
        sy = symbols or tuple(LETTERS)
        env = {'%s%d' % (s, i): H.var('%s%d' % (s, i)) for s in sy for i in range(1, n + 1)}
        K = K_of(env, n, lambda x, i: '%s%d' % (sy[LETTERS.index(x)], i))
        legs_are(H, 'analytical', oPs, K, env)
        for t, w in terms(n):
            H.eq(t, poly(H, oPs(t), env), w(K))
        tot = [[0, 0], [0, 0]]
        for P in K.dn:
            tot = O.madd(tot, P)
        H.eq('total momentum', obj([[poly(H, e, env) for e in row] for row in L(oPs.total_mom)]), obj(O.up_of_dn(tot)))
    return body


def partial(n, legs):
    """components flagged as independent keep their value, the others become symbols"""
    def body(H):
        H.field('rational')
        oPs = sympoint(n)
        bits = []
        for i in range(1, n + 1):
            for x in LETTERS:
                bits.append(H.choose('keep %s%d' % (x, i), [0, 1]) if i in legs else i % 2)
        oPs.make_analytical_d(indepVars=tuple(bits))
        env = named(H, n)
        env.update({'p%d%s' % (i, x): H.var('p%d%s' % (i, x)) for i in range(1, n + 1) for x in LETTERS})
        pick = lambda x, i: ('p%d%s' % (i, x)) if bits[4 * (i - 1) + LETTERS.index(x)] else '%s%d' % (x, i)   # noqa
        legs_are(H, 'partly analytical', oPs, K_of(env, n, pick), env)
    return body


def subs_dict(n):
    """analytical_subs_d: every symbol with the component of the point it stands for; evaluating there is evaluating the point"""
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n)
        d = oPs.analytical_subs_d()
        env = {str(k): v for k, v in d.items()}
        want = comp_env(oPs)
        H.true('one value for every component', set(env) == set('%s%d' % (x, i) for x in LETTERS for i in range(1, n + 1)) and len(d) == 4 * n, repr(sorted(env)))
        for i in range(1, n + 1):
            H.eq('components of leg %d' % i, obj([env.get('%s%d' % (x, i)) for x in LETTERS]), obj([K.r[i - 1][0], K.r[i - 1][1], K.l[i - 1][0], K.l[i - 1][1]]))
        an = sympoint(n)
        an.make_analytical_d()
        for t, w in terms(n):
            H.eq('analytical %s at the point' % t, poly(H, an(t), want), oPs(t))
    return body


def update(n):
    """update_particles: a point from a dictionary of components"""
    def body(H):
        from lips.algebraic_geometry.particles_singular_variety import update_particles
        H.field('finite field')
        oPs, K = kin(H, n)
        env = named(H, n, 'new ')
        keep = dict(env)
        update_particles(oPs, env)
        K2 = K_of(env, n)
        for i, p in enumerate(oPs):
            consistent(H, 'leg %d' % (i + 1), p, mom=K2.dn[i])
            H.eq('leg %d |i>' % (i + 1), p.r_sp_d, obj(O.col(K2.r[i])))
            H.eq('leg %d [i|' % (i + 1), p.l_sp_d, obj([K2.l[i]]))
        for t, w in terms(n):
            H.eq(t, oPs(t), w(K2))
        back = {str(k): v for k, v in oPs.analytical_subs_d().items()}
        H.true('names of the components read back', set(back) == set(keep))
        for k in keep:
            H.eq('read back %s' % k, back.get(k), keep[k])
    return body


# ------------------------------------------------------------------------------------------------------------- ideals

OPEN = {'|1⟩': lambda K: [[K.r[0][0]], [K.r[0][1]]], '|1]': lambda K: O.col(O.lu(K.l[0])), '⟨2|': lambda K: [O.ru(K.r[1])], '|2⟩[2|': lambda K: O.Pdn(K.r[1], K.l[1]), '|1⟩-|2⟩': lambda K: [[K.r[0][k] - K.r[1][k]] for k in (0, 1)]}


def proportional(H, label, got, want, env2):
    """got is a non-zero constant times want: settled at all points by cross-multiplication with a second, independent point"""
    (g1, w1), (g2, w2) = got, want
    H.eq(label + ': proportional', g1 * w2, g2 * w1)


def generators(n, covs, mc):
    def body(H):
        from lips.algebraic_geometry.covariant_ideal import LipsIdeal
        from lips.algebraic_geometry.tools import lips_covariant_symbols
        H.field('rational')
        I = LipsIdeal(n, tuple(covs)) if mc is None else LipsIdeal(n, tuple(covs), momentum_conservation=mc)
        H.true('ring', [str(x) for x in I.ring.variables] == ['%s%d' % (x, i) for i in range(1, n + 1) for x in LETTERS], repr(I.ring.variables))
        H.true('symbols', [str(x) for x in lips_covariant_symbols(n)] == ['%s%d' % (x, i) for i in range(1, n + 1) for x in LETTERS])
        env, other = named(H, n), named(H, n, 'other ')
        K, K2 = K_of(env, n), K_of(other, n)
        tab = dict(terms(n))
        want = []
        for c in covs:
            if c in tab:
                want.append((c, tab[c](K), tab[c](K2)))
            else:
                A, B = OPEN[c](K), OPEN[c](K2)
                want += [('%s[%d]' % (c, k), x, y) for k, (x, y) in enumerate(zip(sum(A, []), sum(B, [])))]
        if mc is not False:
            A, B = (O.up_of_dn(_sum(k, range(1, n + 1))) for k in (K, K2))
            want += [('momentum conservation %d' % k, x, y) for k, (x, y) in enumerate(zip(sum(A, []), sum(B, [])))]
        gens = list(I.generators)
        if len(gens) != len(want):
            H.fail('number of generators', '%d instead of %d' % (len(gens), len(want)))
            return
        for g, (lab, x, y) in zip(gens, want):
            a, b = poly(H, g, env), poly(H, g, other)
            H.eq('generator %s is a multiple' % lab, a * y, b * x)
            H.true('generator %s is not zero' % lab, str(g).strip() not in ('0', ''), repr(g))
    return body


def conversion(n):
    """component ring to bracket ring: A_k = <ij>, B_k = [ij] and nothing else"""
    def body(H):
        from lips.algebraic_geometry.tools import conversionIdeal, lips_invariant_symbols
        H.field('rational')
        m = n * (n - 1) // 2
        names = ['%s%d' % (x, k) for x in 'AB' for k in range(1, m + 1)]
        H.true('symbols', [str(x) for x in lips_invariant_symbols(n)] == names, repr(lips_invariant_symbols(n)[:3]))
        I = conversionIdeal(n)
        env = named(H, n)
        K = K_of(env, n)
        for k, (i, j) in enumerate(itertools.combinations(range(n), 2), 1):
            env['A%d' % k], env['B%d' % k] = O.ang(K.r[i], K.r[j]), O.sqr(K.l[i], K.l[j])
        shift = {v: H.var('shift ' + v) for v in names}
        H.true('number of relations', len(I.generators) == 2 * m, '%d' % len(I.generators))
        seen = {}
        for g in I.generators:
            H.eq('%s holds' % g, poly(H, g, env), 0)
            for v in names:
                if re.search(r'(?<![A-Za-z])%s(?!\d)' % v, str(g)):
                    seen.setdefault(v, []).append(g)
        for v in names:
            if len(seen.get(v, [])) != 1:
                H.fail('%s in one relation' % v, repr(seen.get(v)))
                continue
            moved = dict(env)
            moved[v] = env[v] + shift[v]
            d = poly(H, seen[v][0], moved)
            H.true('%s fixed by its relation' % v, H.cond_eq(d * d, shift[v] * shift[v]), 'relation does not determine it')
    return body


# ------------------------------------------------------------------------------------------------------- substitution

def substitution(n, shape, field):
    """components that are polynomials in parameters: after substitution every representation has the substituted value"""
    def body(H):
        import lips
        import sympy
        from syngular import Field
        H.field('rational')
        F = Field('finite field', P31, 1) if field == 'finite field' else Field('padic', 10007, 5)
        t, u, v = sympy.symbols('t u v')
        S = {}
        ps = []

        def comp(x, i):
            z, w = sympy.Symbol('z%d%s' % (i, x)), sympy.Symbol('w%d%s' % (i, x))
            S[x, i] = {'linear': z + t * w, 'quadratic': z + t * w + t * u * z, 'one': z + t * w if x in 'ab' else z * u, 'symbol': t if x == 'a' else z}[shape]
            return S[x, i]
        for i in range(1, n + 1):
            a, b, c, d = [comp(x, i) for x in LETTERS]
            ps.append(lips.Particle((obj([[a], [b]]), obj([[c, d]])), field=F))
        oPs = lips.Particles(ps, field=F, fix_mom_cons=False)
        oPs.mt2 = t * u + 3 * v
        rule = {t: v + 2, u: 5 * v}
        oPs.subs(rule)
        env = {'%s%d%s' % (y, i, x): H.var('%s%d%s' % (y, i, x)) for y in 'zw' for i in range(1, n + 1) for x in LETTERS}
        env['v'] = H.var('v')
        env['t'], env['u'] = env['v'] + 2, 5 * env['v']
        comps = {k: poly(H, e, env) for k, e in S.items()}
        r = [[comps['a', i], comps['b', i]] for i in range(1, n + 1)]
        l = [[comps['c', i], comps['d', i]] for i in range(1, n + 1)]
        K = O.Kin(r, l, [O.Pdn(x, y) for x, y in zip(r, l)])
        env.pop('t'), env.pop('u')
        legs_are(H, 'substituted', oPs, K, env)
        H.eq('internal mass', poly(H, oPs.mt2, env), (env['v'] + 2) * 5 * env['v'] + 3 * env['v'])
    return body


# ------------------------------------------------------------------------------------------------------ change of field

class Hom(SymField):
    """an arbitrary homomorphism out of the field of the point: every input is mapped to a fresh unknown"""

    def __init__(self, H, inputs, name='finite field'):
        SymField.__init__(self, name)
        self.pairs = [(symx.zt(x.re), symx.zt(H.var('φ(%s)' % k).re)) for k, x in inputs.items()]
        self.target = set(str(b) for _, b in self.pairs)

    def __call__(self, *args):
        x = SymField.__call__(self, *args)
        if not isinstance(x, symx.Sym):
            return x
        sub = lambda t: t if symx.isc(t) else symx.z3.substitute(t, *self.pairs)   # noqa
        out = symx.Sym(sub(x.re), sub(x.im))
        for _, t, p in x.den:
            for _ in range(p):
                out = out / symx.Sym(sub(t))
        return out

    def owns(self, x):
        x = symx.lift(x)
        ts = [t for t in (x.re, x.im) + tuple(t for _, t, _ in x.den) if not symx.isc(t)]
        return all(str(v) in self.target for t in ts for v in symx.term_vars(t).values())


def target(H, inputs):
    if H.symbolic:
        return Hom(H, inputs)
    from syngular import Field
    return Field('finite field', P31, 1)


def owned(H, F, x):
    if H.symbolic:
        return F.owns(x)
    from pyadic import ModP
    return isinstance(x, (ModP, int)) and not isinstance(x, bool)


def to_field(n, kind):
    def body(H):
        import lips
        H.field('rational')
        inputs = {}

        def var(k):
            inputs[k] = H.var(k)
            return inputs[k]
        r = [[var('p%da' % i), var('p%db' % i)] for i in range(1, n + 1)]
        l = [[var('p%dc' % i), var('p%dd' % i)] for i in range(1, n + 1)]
        oPs = H.particles((r, l))
        oPs.oRefVec = H.particle([var('qa'), var('qb')], [var('qc'), var('qd')])
        oPs.mt2 = var('mt2')
        oPs.mh2 = 's_12'
        corners = [[i] for i in range(1, n + 1)]
        if kind == 'massive':
            corners = [[i] for i in range(1, n - 1)] + [[n - 1, n]]
            oPs = oPs.cluster(corners)
        elif kind == 'fermion':
            corners = [[i] for i in range(1, n - 1)] + [[n - 1, n]]
            oPs = oPs.cluster(corners, massive_fermions=((n - 1, 'u', all),))
        F = target(H, inputs)
        f = {k: F(v) for k, v in inputs.items()}
        K = O.Kin([[F(x) for x in y] for y in r], [[F(x) for x in y] for y in l], None)
        K.dn = [O.Pdn(a, b) for a, b in zip(K.r, K.l)]
        if kind != 'massless':   # a homomorphism maps zero to zero: a corner that happens to be massless stays so
            src = O.Kin(r, l, [O.Pdn(a, b) for a, b in zip(r, l)])
            H.assume(~H.cond_eq(O.det2(_sum(src, corners[-1])), 0) | H.cond_eq(O.det2(_sum(K, corners[-1])), 0))
        oPs.to_field(F)
        H.true('field of the point', oPs.field is F or oPs.field == F, repr(oPs.field))
        for i, (p, c) in enumerate(zip(oPs, corners)):
            lab = 'leg %d' % (i + 1)
            H.true(lab + ': field', p.field is F or p.field == F, repr(p.field))
            P = _sum(K, c)
            H.eq(lab + ': P_dn', p.r2_sp_b, obj(P))
            H.eq(lab + ': P^up', p.r2_sp, obj(O.up_of_dn(P)))
            H.eq(lab + ': mass', p.m2, O.det2(P))
            if len(c) == 1:
                consistent(H, lab, p, mom=P)
                H.eq(lab + ': |i>', p.r_sp_d, obj(O.col(K.r[c[0] - 1])))
                H.eq(lab + ': [i|', p.l_sp_d, obj([K.l[c[0] - 1]]))
            elif kind == 'fermion':
                a, b = c
                H.eq(lab + ': |i>', p.r_sp_d, obj([[K.r[a - 1][k], K.r[b - 1][k]] for k in (0, 1)]))
            for nm in ('r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u', 'r2_sp', 'r2_sp_b'):
                v = getattr(p, nm)
                if v is not None:
                    H.true('%s: %s in the new field' % (lab, nm), all(owned(H, F, x) for x in obj(L(v)).flatten()), repr(L(v)))
        H.eq('total momentum', oPs.total_mom, obj(O.up_of_dn(_sum(K, range(1, n + 1)))))
        H.eq('internal mass', oPs('mt2'), f['mt2'])
        H.eq('product with an internal mass', oPs('mt2*s_12'), f['mt2'] * O.det2(O.madd(_sum(K, corners[0]), _sum(K, corners[1]))))
        H.eq('alias', oPs('mh2'), O.det2(O.madd(_sum(K, corners[0]), _sum(K, corners[1]))))
        if kind == 'massless':
            for t, w in terms(n):
                H.eq(t, oPs(t), w(K))
    return body


def scenarios(tier):
    out = []
    Q = dict(fields=['rational'], setup=with_convention('asymmetric'), budget=500)
    G = dict(fields=['finite field'], setup=with_convention('asymmetric'), budget=500)
    for n in (2, 3, 4, 5, 6):
        out.append(Scenario('analytical:%d' % n, analytical(n), **Q))
        out.append(Scenario('values at the point:%d' % n, subs_dict(n), **G))
        out.append(Scenario('update:%d' % n, update(n), **G))
    out.append(Scenario('analytical:3:other names', analytical(3, ('x', 'y', 'z', 'w')), **Q))
    out.append(Scenario('analytical:4:other names', analytical(4, ('d', 'c', 'b', 'a')), **Q))
    for n, legs in ((2, (1,)), (2, (2,)), (4, (3,))) if tier == 'quick' else ((2, (1, 2)), (4, (3,)), (4, (4,)), (5, (1,))):
        out.append(Scenario('kept components:%d:%s' % (n, legs), partial(n, legs), max_paths=300, **Q))
    for n in (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6):
        tt = [t for t, _ in terms(n)]
        for k in range(0, len(tt), 3):
            for mc in (None, False) if k % 2 else (None, True):
                out.append(Scenario('generators:%d:%s:%s' % (n, ','.join(tt[k:k + 3]), mc), generators(n, tt[k:k + 3], mc), **Q))
        for t in OPEN:
            out.append(Scenario('generators:%d:%s' % (n, t), generators(n, [t, '⟨1|2⟩'], None), **Q))
        out.append(Scenario('generators:%d:none' % n, generators(n, [], None), **Q))
        out.append(Scenario('conversion:%d' % n, conversion(n), **Q))
    for sh in ('linear', 'quadratic', 'one', 'symbol'):
        for fl in ('finite field', 'padic'):
            out.append(Scenario('substitution:%s:%s' % (sh, fl), substitution(2, sh, fl), **Q))
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for k in ('massless', 'massive', 'fermion'):
            if n > 3 or k == 'massless':
                out.append(Scenario('to_field:%d:%s' % (n, k), to_field(n, k), **Q))
    return out
