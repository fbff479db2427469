"""C22: slices and points on varieties satisfy what was asked for, whichever solution the polynomial solver returns."""
from fractions import Fraction
import inspect
import oracle as O
import symx
from checks.common import *   # noqa
from checks.C19 import K_of, LETTERS
from harness import Scenario, P31

BOUNDS = ("points of 4 to 6 legs (thorough: 8) whose components are unknowns; the shift spinors of a slice, and every solution returned by the polynomial solver, are unknowns constrained only by "
          "the equations lips gave to it; slices in one and two parameters with up to three constraints, both algorithms, with and without seed, the first solution of the solver discarded or not; "
          "points on varieties of one to three invariants over finite fields, p-adic numbers and complex numbers, with and without base point, with generators of their own")
OUTSIDE = "whether the polynomial solver (Singular) finds a solution; the size of the components; probability of accidental zeros"
ASSUMPTIONS = STD + ["the polynomial solver is replaced, at the interface of syngular (point on the variety of an ideal, line in a quotient ring), by one that returns arbitrary values satisfying "
                     "the generators of the ideal it is asked about and of the ring's quotient, or, off the variety, the asked-for valuations in the asked-for directions",
                     "products of unknowns are treated as independent unknowns (which only weakens the assumptions); counterexamples are replayed with the real solver"]


def small(c):
    """the fraction with small numerator and denominator a coefficient modulo the prime stands for"""
    c = Fraction(int(c.p), int(c.q)) if hasattr(c, 'p') else Fraction(c)
    if abs(c.numerator) < 10 ** 4 or c.denominator != 1:
        return c
    n = int(c) % P31
    r0, r1, s0, s1 = P31, n, 0, 1
    while r1 > 30000:
        q = r0 // r1
        r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
    return Fraction(r1, s1)


class Mon(object):
    """reads sympy polynomials as linear forms in monomials, each monomial an unknown of the query"""

    def __init__(self, H):
        self.H, self.cache = H, {}

    def terms(self, e):
        import sympy
        if isinstance(e, str):
            e = sympy.sympify(e.replace('^', '**'))
        if hasattr(e, 'as_expr'):
            e = e.as_expr()
        e = sympy.expand(sympy.sympify(e))
        syms = sorted(e.free_symbols, key=str)
        if not syms:
            return {(): small(e)} if e != 0 else {}
        out = {}
        for mon, c in sympy.Poly(e, *syms).terms():
            out[tuple(sorted((str(s), k) for s, k in zip(syms, mon) if k))] = small(c)
        return out

    def form(self, terms):
        tot = self.H.const(0)
        for m, c in terms.items():
            tot = tot + self.H.const(c) * (self.var(m) if m else self.H.const(1))
        return tot

    def var(self, m):
        if m not in self.cache:
            self.cache[m] = self.H.real('·'.join(s if k == 1 else '%s^%d' % (s, k) for s, k in m))
        return self.cache[m]

    def zero(self, e, assume=None, label=None, params=()):
        """the polynomial vanishes for every value of the parameters: assumed, or to be shown"""
        split = {}
        for m, c in self.terms(e).items():
            p = tuple((s, k) for s, k in m if s in params)
            split.setdefault(p, {})[tuple((s, k) for s, k in m if s not in params)] = c
        for p, t in sorted(split.items()):
            f = self.form(t)
            if assume:
                self.H.assume(self.H.cond_eq(f, 0))
            else:
                self.H.eq('%s%s' % (label, ' (coefficient of %s)' % (p, ) if params else ''), f, self.H.const(0))


def symbol_field(name, char, digits):
    import sympy
    from syngular import Field

    class SymbolField(Field):
        """random elements are unknowns"""
        drawn = 0

        def random(self, shape=(1, )):
            SymbolField.drawn += 1
            return sympy.Symbol('rnd%d' % SymbolField.drawn)

        def __deepcopy__(self, memo):
            return self
    SymbolField.drawn = 0
    return SymbolField(name, char, digits)


FIELD = {'finite field': ('finite field', P31, 1), 'padic': ('padic', 10007, 5), 'mpc': ('mpc', 0, 300)}


class Solver(object):
    """stand-in for the polynomial solver: arbitrary solutions of what it is asked"""

    def __init__(self, H, M, params=(), discard=0):
        self.H, self.M, self.calls, self.params, self.discard = H, M, [], params, discard
        self.lines = []

    def known(self):
        return [str(v) for c in self.calls for v in c['values'].values()]

    def point(self, ideal, field, *args, **kw):
        import sympy
        a = inspect.signature(self.real).bind(ideal, field, *args, **kw)
        a.apply_defaults()
        a = dict(a.arguments)
        k = len(self.calls)
        variables = [str(v) for v in ideal.ring.variables]
        gens = list(ideal.generators)
        extra = list(ideal.ring.ideal.generators) if hasattr(ideal.ring, 'ideal') else []
        vals = {v: sympy.Symbol('sol%d_%s' % (k, v)) for v in variables}
        call = dict(args=a, gens=gens, extra=extra, variables=variables, values=vals)
        slicing = variables[0][0] == 'x'
        if slicing and self.discard > 0:
            self.discard -= 1
            vals = dict(vals)
            vals[variables[0]] = 0
            call['values'] = vals
            self.calls.append(call)
            return dict(vals)
        self.calls.append(call)
        sub = {sympy.Symbol(v): s for v, s in vals.items()}

        def at(g):
            return sympy.sympify(str(g).replace('^', '**')).subs(sub, simultaneous=True)
        if field.name == 'finite field':
            exact = gens + extra
        else:
            exact = extra
            dirs = a.get('directions') or []
            if not dirs and a.get('valuations'):
                raise ValueError('no directions')
            dirs = list(dirs)
            want = list(a.get('valuations') or ())
            if len(dirs) != len(want):
                raise ValueError('%d valuations for %d directions' % (len(want), len(dirs)))
            for d, v in zip(dirs, want):       # off the variety: the value in the direction is the one asked for
                self.M.zero(at(d) - sympy.Symbol('value(%s)' % v), assume=True)
        for g in exact:
            g_ = at(g)
            if not set(map(str, g_.free_symbols)) & set(map(str, vals.values())):
                self.M.zero(g_, label='an equation given to the solver without unknowns holds', params=self.params)
            else:
                self.M.zero(g_, assume=True)
        return dict(vals)

    def line(self, ring, field, *args, **kw):
        import sympy
        variables = [str(v) for v in ring.variables]
        extra = list(ring.ideal.generators) if hasattr(ring, 'ideal') else []
        p = {v: sympy.Symbol('line_%s' % v) for v in variables}
        q = {v: sympy.Symbol('dir_%s' % v) for v in variables}
        T = sympy.Symbol('T')
        for g in extra:
            e = sympy.sympify(str(g).replace('^', '**')).subs({sympy.Symbol(v): p[v] + T * q[v] for v in variables}, simultaneous=True)
            self.M.zero(e, assume=True, params=('T', ))
        self.lines.append((p, q, dict(kw, args=args)))
        return lambda t: {v: p[v] + t * q[v] for v in variables}

    def patches(self):
        import syngular
        from syngular.ring import Ring
        from syngular.qring import QuotientRing
        Ideal = syngular.Ideal
        self.real = inspect.unwrap(Ideal.point_on_variety)
        me = self
        nop = lambda self, *a, **k: None   # noqa
        out = [(Ring, 'test_valid_ring', nop), (QuotientRing, 'test_valid_qring', nop), (Ideal, 'test_valid_ideal', nop),
               (Ring, 'univariate_slice', lambda ring, field, *a, **k: me.line(ring, field, *a, **k))]
        owner = [c for c in Ideal.__mro__ if 'point_on_variety' in vars(c)][0]
        out.append((owner, 'point_on_variety', lambda ideal, field, *a, **k: me.point(ideal, field, *({'indepSetNbr': 0} and ()), *a, **{x: y for x, y in k.items() if x != 'indepSetNbr'})))
        return patched(*out)


# oracle of the constraints: text -> function of the spinors
def ang(i, j):
    return lambda r, l: r[i - 1][0] * r[j - 1][1] - r[i - 1][1] * r[j - 1][0]


def sqr(i, j):
    return lambda r, l: l[i - 1][0] * l[j - 1][1] - l[i - 1][1] * l[j - 1][0]


# lips: <ij> = r_u(i) . r_d(j), [ij] = l_d(i) . l_u(j)
def br(kind, i, j, r, l):
    R, LL = r, l
    if kind == '<':
        u = O.ru(R[i - 1])
        return u[0] * R[j - 1][0] + u[1] * R[j - 1][1]
    u = O.lu(LL[j - 1])
    return LL[i - 1][0] * u[0] + LL[i - 1][1] * u[1]


CON = {
    '⟨12⟩': lambda r, l: br('<', 1, 2, r, l),
    '[12]': lambda r, l: br('[', 1, 2, r, l),
    '⟨34⟩+[34]': lambda r, l: br('<', 3, 4, r, l) + br('[', 3, 4, r, l),
    '⟨34⟩-⟨12⟩': lambda r, l: br('<', 3, 4, r, l) - br('<', 1, 2, r, l),
    's_12': lambda r, l: br('<', 1, 2, r, l) * br('[', 2, 1, r, l),
    '⟨1|2+3|4]': lambda r, l: br('<', 1, 2, r, l) * br('[', 2, 4, r, l) + br('<', 1, 3, r, l) * br('[', 3, 4, r, l),
    '⟨1|2⟩⟨3|4⟩-⟨1|3⟩⟨2|4⟩': lambda r, l: br('<', 1, 2, r, l) * br('<', 3, 4, r, l) - br('<', 1, 3, r, l) * br('<', 2, 4, r, l),
}


def comps(oPs):
    r = [[p.r_sp_d[0, 0], p.r_sp_d[1, 0]] for p in oPs]
    l = [[p.l_sp_d[0, 0], p.l_sp_d[0, 1]] for p in oPs]
    return r, l


def total(r, l):
    t = [[0, 0], [0, 0]]
    for x, y in zip(r, l):
        t = O.madd(t, O.Pdn(x, y))
    return [t[0][0], t[0][1], t[1][0], t[1][1]]


def same(H, M, label, a, b):
    """two expressions (sympy) agree identically"""
    import sympy
    d = sympy.expand(sympy.sympify(_e(a)) - sympy.sympify(_e(b)))
    M.zero(d, label=label)


def _e(x):
    x = getattr(x, 'n', x) if type(x).__name__ == 'ModP' else x
    return x.as_expr() if hasattr(x, 'as_expr') else x


def follow(H, M, oPs):
    """all representations of every leg follow from its spinors"""
    r, l = comps(oPs)
    for i, p in enumerate(oPs):
        lab = 'leg %d: ' % (i + 1)
        for nm, got, want in (('<i|', p.r_sp_u, [O.ru(r[i])]), ('|i]', p.l_sp_u, O.col(O.lu(l[i]))), ('P_dn', p.r2_sp_b, O.Pdn(r[i], l[i])), ('P^up', p.r2_sp, O.Pup(r[i], l[i]))):
            for x, y in zip(numpy.asarray(got, dtype=object).flatten(), numpy.asarray(want, dtype=object).flatten()):
                same(H, M, lab + nm + ' follows', x, y)


def point(H, n, field, name='a b c d'):
    import lips
    import sympy
    ps = []
    for i in range(1, n + 1):
        a, b, c, d = [sympy.Symbol('start%d%s' % (i, x)) for x in LETTERS]
        ps.append(lips.Particle((obj([[a], [b]]), obj([[c, d]])), field=field))
    return lips.Particles(ps, field=field, fix_mom_cons=False)


class Retry(object):
    """on replay: the real solver, of which the first answers to slices are spoilt by a zero component"""

    def __init__(self, discard):
        self.discard = discard

    def patches(self):
        import syngular
        owner = [c for c in syngular.Ideal.__mro__ if 'point_on_variety' in vars(c)][0]
        real = vars(owner)['point_on_variety']
        me = self

        def pov(ideal, *a, **k):
            out = real(ideal, *a, **k)
            v = str(ideal.ring.variables[0])
            if v[0] == 'x' and me.discard > 0:
                me.discard -= 1
                out = dict(out)
                out[v] = 0
            return out
        return patched((owner, 'point_on_variety', pov))


def limited(f, seconds=60):
    """a call that does not end is a failure to answer"""
    import signal

    def ring(*a):
        raise RuntimeError('no answer within %d s' % seconds)
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def real_slice(H, n, method, cons, alg, seed, discard):
    import lips
    import sympy
    from syngular import Field
    F = Field(*FIELD['finite field'])
    oPs = lips.Particles(n, field=F, seed=5)
    kw = {} if alg is None else {'algorithm': alg}
    with Retry(discard).patches():
        limited(lambda: getattr(oPs, method)(extra_constraints=cons, seed=seed, **kw))
    if seed is not None:
        seen = [repr(comps(oPs))]
        for _ in range(3):                           # the solver may choose another way, depending on how fast it was
            again = lips.Particles(n, field=F, seed=5)
            with Retry(discard).patches():
                limited(lambda: getattr(again, method)(extra_constraints=cons, seed=seed, **kw))
            seen.append(repr(comps(again)))
        H.true('the same seed gives the same slice', len(set(seen)) < len(seen), '')
    T = sympy.symbols('t' if method.startswith('uni') else 't1 t2')
    gens = T if isinstance(T, tuple) else (T, )

    def P(e):
        return sympy.Poly(sympy.expand(_e(e)), *gens, modulus=P31)
    r, l = comps(oPs)
    R, LL = [[P(x) for x in v] for v in r], [[P(x) for x in v] for v in l]
    for x in total(R, LL):
        H.true('momentum is conserved along the slice', P(x.as_expr()).is_zero, str(x))
    for x in oPs.total_mom.flatten():
        H.true('total_mom along the slice', P(x).is_zero, str(x))
    for c in cons:
        H.true('%s along the slice' % c, P(CON[c](R, LL).as_expr()).is_zero, '')
        H.true('%s along the slice, evaluated' % c, P(oPs(c)).is_zero, '')
    for g in gens:
        for k in range(n):
            H.true('every leg moves with every parameter', any(x.as_expr().has(g) for x in R[k]) and any(x.as_expr().has(g) for x in LL[k]), 'leg %d' % (k + 1))
    if alg != 'generic':
        for i in range(1, n + 1):
            for j in range(i + 1, n + 1):
                if method.startswith('uni'):
                    H.true('brackets are linear', br('<', i, j, R, LL).degree() <= 1 and br('[', i, j, R, LL).degree() <= 1, '')
    for p in oPs:
        for got, want in ((p.r2_sp_b, O.Pdn(*[comps([p])[k][0] for k in (0, 1)])), ):
            for x, y in zip(got.flatten(), numpy.asarray(want, dtype=object).flatten()):
                H.true('momentum follows the spinors', (P(x) - P(y)).is_zero, '')


def slices(n, method, cons=(), alg=None, seed=0, discard=0):
    def body(H):
        import sympy
        if not H.symbolic:
            H.field('finite field')
            return real_slice(H, n, method, cons, alg, seed, discard)
        H.field('rational')
        M = Mon(H)
        params = ('t', ) if method.startswith('uni') else ('t1', 't2')
        S = Solver(H, M, params, discard)
        F = symbol_field(*FIELD['finite field'])
        oPs = point(H, n, F)
        kw = {} if alg is None else {'algorithm': alg}
        with S.patches():
            getattr(oPs, method)(extra_constraints=cons, seed=seed, **kw)
            tot = list(oPs.total_mom.flatten())
            vals = {c: oPs(c) for c in cons}
        H.true('number of legs', len(oPs) == n, str(len(oPs)))
        r, l = comps(oPs)
        for k, x in enumerate(total(r, l)):
            M.zero(_e(x), label='momentum is conserved along the slice [%d]' % k, params=params)
        for k, x in enumerate(tot):
            M.zero(_e(x), label='total_mom along the slice [%d]' % k, params=params)
        for c in cons:
            M.zero(CON[c](r, l), label='%s along the slice' % c, params=params)
            M.zero(_e(vals[c]), label='%s along the slice, evaluated' % c, params=params)
        follow(H, M, oPs)
        # how the legs move
        T = [sympy.Symbol(p) for p in params]
        for i in range(n):
            used = []
            for kind, v in (('|i>', r[i]), ('[i|', l[i])):
                e = [sympy.Poly(sympy.expand(_e(x)), *T) for x in v]
                H.true('leg %d: %s is linear in the parameters' % (i + 1, kind), all(x.total_degree() == 1 for x in e), repr(v))
                for p in T:
                    d = [x.as_expr().coeff(p, 1) for x in e]
                    used.append(frozenset(str(s) for x in d for s in x.free_symbols if str(s).startswith(('sol', 'dir'))))
                    H.true('leg %d: %s moves with %s' % (i + 1, kind, p), any(x != 0 for x in d), repr(v))
            H.true('leg %d: its spinors move independently' % (i + 1), len(set(used)) == len(used), repr(used))
        if alg != 'generic':
            for i in range(1, n + 1):
                for j in range(i + 1, n + 1):
                    for kind in '<[':
                        if len(T) == 1:
                            M.zero(sympy.expand(br(kind, i, j, r, l)).coeff(T[0], 2), label='%s%d%d is linear in the parameter' % (kind, i, j))
            if seed is not None:
                seeds = [c['args'].get('seed') for c in S.calls if c['variables'][0][0] == 'x']
                H.true('a discarded solution is not asked for again', len(set(seeds)) == len(seeds), repr(seeds))
                H.true('the solver is given the seed', None not in seeds, repr(seeds))
        else:
            H.true('the solver is given the seed', all(k.get('seed', (list(k['args']) + [None] * 3)[2]) == seed for _, _, k in S.lines), repr(S.lines))
    return body


def variety(n, invs, field, method='_singular_variety', gens=None, seed=None):
    """the point after the call is the point the solver was asked for"""
    def body(H):
        import lips
        import sympy
        vals = () if field == 'finite field' else tuple(range(1, len(invs) + 1))
        if not H.symbolic:
            H.field('finite field')
            return real_variety(H, n, invs, field, method, gens, seed, vals)
        H.field('rational')
        M = Mon(H)
        S = Solver(H, M)
        F = symbol_field(*FIELD[field])
        kw = dict(seed=seed)
        if gens is not None:
            kw['generators'] = list(gens)
        with S.patches():
            if method == 'from_singular_variety':
                class Dummy(lips.Particles):
                    def __init__(self, *a, **k):
                        lips.Particles.__init__(self, [lips.Particle((obj([[1], [2]]), obj([[3, 4]])), field=F) for _ in range(a[0])], field=k.get('field', F), fix_mom_cons=False)
                Dummy.__name__ = 'Particles'
                oPs = Dummy.from_singular_variety(n, F, invs, vals, **kw)
            else:
                oPs = point(H, n, F)
                oPs._singular_variety(invs, vals, **kw)
        r, l = comps(oPs)
        H.true('the solver is asked once', len(S.calls) == 1, str(len(S.calls)))
        c = S.calls[0]
        for k, x in enumerate(total(r, l)):
            M.zero(_e(x), label='momentum is conserved [%d]' % k)
        for k, x in enumerate(oPs.total_mom.flatten()):
            M.zero(_e(x), label='total_mom [%d]' % k)
        for k, t in enumerate(invs):
            if field == 'finite field':
                M.zero(CON[t](r, l), label='%s vanishes' % t)
            else:
                v = sympy.Symbol('value(%s)' % vals[k])
                M.zero(CON[t](r, l) - v, label='%s has the value asked for' % t)
        follow(H, M, oPs)
        base = c['args'].get('base_point') or {}
        if method == 'from_singular_variety':
            H.true('no base point', not base, repr(base))
        else:
            want = {'%s%d' % (x, i): 'start%d%s' % (i, x) for i in range(1, n + 1) for x in LETTERS}
            got = {str(k): str(v) for k, v in base.items()}
            H.true('the base point is the point', got == want, repr(got))
        H.true('the solver is given the seed', c['args'].get('seed') == seed, repr(c['args'].get('seed')))
    return body


def real_variety(H, n, invs, field, method, gens, seed, vals):
    import lips
    from syngular import Field
    F = Field(*FIELD[field])
    import mpmath
    mpmath.mp.dps = 300
    if field == 'mpc':
        vals = tuple(mpmath.mpf('1e-%d' % (30 * v)) for v in vals)
    kw = {} if seed is None else {'seed': seed}
    if gens is not None:
        kw['generators'] = list(gens)
    if method == 'from_singular_variety':
        oPs = limited(lambda: lips.Particles.from_singular_variety(n, F, invs, vals, **kw), 120)
    else:
        oPs = lips.Particles(n, field=F, seed=5)
        limited(lambda: oPs._singular_variety(invs, vals, **kw), 120)
    r, l = comps(oPs)

    def size(x):
        return abs(x)
    for x in total(r, l):
        H.true('momentum is conserved', x == 0 or (field == 'mpc' and abs(x) < mpmath.mpf('1e-200')), str(x))
    for k, t in enumerate(invs):
        x = CON[t](r, l)
        if field == 'finite field':
            H.true('%s vanishes' % t, x == 0, str(x))
        elif field == 'mpc':
            H.true('%s has the value asked for' % t, min(abs(x - vals[k]), abs(x + vals[k])) < abs(vals[k]) / 10 ** 6, str(x))
        else:
            H.true('%s has the valuation asked for' % t, x.n == vals[k], '%s' % x.n)
    for p in oPs:
        consistent(H, 'leg', p)


def scenarios(tier):
    out = []
    deep = tier == 'thorough'

    def add(name, body, **k):
        out.append(Scenario(name, body, fields=['finite field'], **k))
    sets = [(), ('⟨12⟩', ), ('⟨34⟩+[34]', ), ('⟨34⟩+[34]', '⟨34⟩-⟨12⟩'), ('s_12', )]
    for n in (4, 5, 6) + ((7, 8) if deep else ()):
        for cons in sets:
            for seed, discard in ((0, 0), (None, 0), (3, 1), (None, 1), (2, 2)):
                if (n != 5 or cons not in ((), ('⟨12⟩', ))) and (seed, discard) not in ((0, 0), (None, 1)):
                    continue
                add('univariate:%d legs, constraints %s, seed %s%s' % (n, ' '.join(cons) or 'none', seed, ', %d solutions discarded' % discard if discard else ''),
                    slices(n, 'univariate_slice', cons, None, seed, discard))
    for n in (4, 5) + ((6, 7) if deep else ()):
        for cons in sets[:4]:
            for seed, discard in ((0, 0), (None, 1), (7, 1)):
                if (n != 5 or cons) and (seed, discard) == (7, 1):
                    continue
                add('bivariate:%d legs, constraints %s, seed %s%s' % (n, ' '.join(cons) or 'none', seed, ', %d solutions discarded' % discard if discard else ''),
                    slices(n, 'bivariate_slice', cons, None, seed, discard))
    for n in (4, 5, 6):
        for cons in sets + [('⟨1|2+3|4]', )]:
            add('univariate generic:%d legs, constraints %s' % (n, ' '.join(cons) or 'none'), slices(n, 'univariate_slice', cons, 'generic', 4))
    for n in (4, 5, 6):
        for field in ('finite field', 'padic', 'mpc'):
            for invs in (('⟨12⟩', ), ('[12]', ), ('s_12', ), ('⟨12⟩', '⟨34⟩+[34]'), ('[12]', '⟨1|2+3|4]'), ('⟨1|2⟩⟨3|4⟩-⟨1|3⟩⟨2|4⟩', '⟨12⟩', '[12]')):
                for method in ('_singular_variety', 'from_singular_variety'):
                    add('variety:%s %d legs %s, %s' % (method.strip('_'), n, field, ' '.join(invs)), variety(n, invs, field, method, None, None if n == 4 else 6))
    for field in ('finite field', 'padic', 'mpc'):
        for method in ('_singular_variety', 'from_singular_variety'):
            add('variety:%s with generators, %s' % (method.strip('_'), field), variety(5, ('⟨12⟩', '[12]'), field, method, None, 11))
    return out
