"""C23: a seed determines the point."""
import itertools
import random as real_random
import sys
import symx
from checks.common import *   # noqa
from checks.C22 import Solver, Mon, FIELD, limited, comps, point as symbol_point
from harness import Scenario, SymField, P31

BOUNDS = ("points of 2 to 6 legs, over every field, complex and real momenta, with and without momentum conservation, internal masses given as names in any collection; slices of 4 and 5 legs; "
          "(over the floating-point field the draws are positive and momentum conservation, decided for the other fields, is not imposed); seeds zero, positive, negative, boolean, large and text; the state of the generator before the call, and the order in which a set is traversed, arbitrary; the call repeated after an arbitrary history")
OUTSIDE = "the generator itself; that different seeds give different points; the polynomial solver below syngular"
ASSUMPTIONS = STD + ["the generator is modelled as a state that is a function of the last seed and the number of draws since; every draw is an arbitrary function of the state (for slices: an injective one); seeding without a value gives a state of its own every time",
                     "over the floating-point field a square root is an arbitrary positive function of its argument",
                     "the polynomial solver draws from the same generator after seeding it with the seed it is given, as syngular does"]


class Stream(object):
    """the random module as seen by lips: draws are unknowns named after the state of the generator"""

    def __init__(self, H):
        self.H, self.cache, self.fresh, self.state, self.count = H, {}, 0, 'initial', 0

    def __getattr__(self, k):
        return getattr(real_random, k)

    positive = concrete = False

    def number(self):
        """a number that is a function of the state (stands for any injective one)"""
        return real_random.Random(self.key('number'))

    def seed(self, a=None, *rest):
        if a is None:
            self.fresh += 1
            self.state = 'fresh%d' % self.fresh
        else:
            self.state = 'seed(%s)' % (a if not isinstance(a, symx.Sym) else 'draw %s' % self.name_of(a))
        self.count = 0

    def name_of(self, x):
        for k, v in self.cache.items():
            if v is x:
                return k
        return str(x)

    def history(self):
        """something else happened to the generator in the meantime"""
        self.fresh += 1
        self.state, self.count = 'history%d' % self.fresh, 0

    def key(self, kind):
        self.count += 1
        return '%s#%d %s' % (self.state, self.count, kind)

    def draw(self, kind):
        k = self.key(kind)
        if k not in self.cache:
            if len(self.cache) > 400:
                raise symx.Abandon()
            self.cache[k] = self.H.real(k)
            if self.positive:
                self.H.assume(self.cache[k] > 0)
        return self.cache[k]

    def pick(self, kind, options):
        k = self.key(kind)
        if k not in self.cache:
            self.cache[k] = self.H.choose(k, options)
        return self.cache[k]

    def randrange(self, *a):
        if self.concrete:
            return self.number().randrange(*a)
        return self.draw('randrange%r' % (a, ))

    def randint(self, *a):
        if self.concrete:
            return self.number().randint(*a)
        return self.draw('randint%r' % (a, ))

    def random(self):
        if self.concrete:
            return self.number().random()
        return self.draw('random')

    def uniform(self, *a):
        if self.concrete:
            return self.number().uniform(*a)
        return self.draw('uniform%r' % (a, ))

    def sample(self, pop, k):
        pop = list(pop)
        if self.concrete:
            return self.number().sample(pop, k)
        perms = list(itertools.permutations(pop, k))
        mid = perms[:3] + perms[-2:] if len(perms) > 5 else perms
        return list(self.pick('sample', mid))

    def choice(self, pop):
        return self.pick('choice', list(pop))

    def shuffle(self, xs):
        xs[:] = self.sample(xs, len(xs))

    def patches(self):
        out = []
        for nm, m in sorted(sys.modules.items()):
            if (nm == 'lips' or nm.startswith('lips.')) and getattr(m, 'random', None) is real_random:
                out.append((m, 'random', self))
        import lips.tools as T
        import mpmath
        out.append((T, 'mpmath', Pass(mpmath)))
        return patched(*out)


class Pass(object):
    """mpmath as seen by the module that draws fractions: unknowns pass through its constructors"""

    def __init__(self, mod):
        self._mod = mod

    def __getattr__(self, k):
        f = getattr(self._mod, k)
        if k in ('mpc', 'mpf'):
            return lambda *a: a[0] if len(a) == 1 and isinstance(a[0], symx.Sym) else f(*a)
        return f


class Drawing(SymField):
    def __init__(self, name, stream):
        SymField.__init__(self, name, 0, name in ('mpc', 'gaussian rational'))
        self.stream, self.roots = stream, []

    def sqrt(self, x):
        """a function: the same argument has the same root"""
        x = symx.lift(x)
        for y, r in self.roots:
            if y.re is x.re and y.im is x.im or (str(y.re) == str(x.re) and str(y.im) == str(x.im) and str(y.den) == str(x.den)):
                return r
        if self.name == 'mpc':           # any function of the argument will do
            r = self.stream.H.real('root %d' % len(self.roots))
            self.stream.H.assume(r > 0)
        else:
            r = SymField.sqrt(self, x)
        self.roots.append((x, r))
        return r

    def __deepcopy__(self, memo):
        return self

    def random(self, shape=(1, )):
        return self.stream.draw('element')


class Names(set):
    """a set of names traversed in an order of our choice"""

    def __new__(cls, names):
        return set.__new__(cls)

    def __init__(self, names):
        set.__init__(self, names)
        self._order = list(names)

    def __iter__(self):
        return iter(self._order)


PLAIN = {'finite field': ('finite field', P31, 1), 'padic': ('padic', 10007, 5), 'rational': ('rational', 0, 0), 'gaussian rational': ('gaussian rational', 0, 0), 'mpc': ('mpc', 0, 300)}
MASSES = {'none': None, 'list': ['m1', 'm2', 'm3'], 'tuple': ('m2', 'M'), 'set': 'set'}


def masses_of(H, kind, order):
    if kind == 'set':
        return Names([['mt', 'mb', 'm_x'], ['mb', 'm_x', 'mt'], ['m_x', 'mt', 'mb']][order])
    return MASSES[kind]


def flat(oPs):
    out = []
    for p in list(list.__iter__(oPs)):
        for a in (p.r_sp_d, p.l_sp_d, p.r2_sp):
            if a is not None:
                out += list(numpy.asarray(a, dtype=object).flatten())
    return out


def pts(n, field, seed, real=False, fix=True, masses='none', conv='symmetric'):
    def body(H):
        import lips
        H.field(field, complex_=field in ('mpc', 'gaussian rational'))
        S = Stream(H)
        if H.symbolic:
            S.positive = field == 'mpc'
            F = Drawing(field, S)
            patches = S.patches()
        else:
            from syngular import Field
            F = Field(*PLAIN[field])
            real_random.seed(12345)
            patches = patched()
        kw = dict(seed=seed, field=F, fix_mom_cons=fix)
        if real:
            kw['real_momenta'] = True
        with patches:
            A = lips.Particles(n, internal_masses=masses_of(H, masses, 0), **kw)
            S.history() if H.symbolic else real_random.seed(54321)
            if not H.symbolic:
                numpy.random.seed(11)
            if field != 'mpc':
                lips.Particles(2, field=F, fix_mom_cons=False)
            B = lips.Particles(n, internal_masses=masses_of(H, masses, H.choose('order of the set', [0, 1, 2]) if masses == 'set' else 0), **kw)
        H.true('the same number of legs', len(A) == len(B) == n, '')
        H.eq('the same point', obj(flat(A)), obj(flat(B)))
        H.eq('the same reference vector', obj(flat([A.oRefVec])), obj(flat([B.oRefVec])))
        for k in sorted(A.internal_masses):
            H.eq('the same mass %s' % k, getattr(A, k), getattr(B, k))
        H.true('the same names of masses', set(A.internal_masses) == set(B.internal_masses), '')
    return body


class SeededSolver(Solver):
    """answers are functions of the seed and of the question"""

    def __init__(self, H, M, params, stream, log):
        Solver.__init__(self, H, M, params)
        self.stream, self.log = stream, log

    def point(self, ideal, field, *args, **kw):
        import sympy
        seed = kw.get('seed')
        self.stream.seed(seed)
        q = (tuple(map(str, ideal.generators)), tuple(map(str, getattr(getattr(ideal.ring, 'ideal', None), 'generators', ()))), self.stream.state,
             repr(sorted((str(a), str(b)) for a, b in (kw.get('base_point') or {}).items())))
        k = self.log.setdefault(q, len(self.log))
        self.stream.count += 7
        return {str(v): sympy.Symbol('sol%d_%s' % (k, v)) for v in ideal.ring.variables}

    def line(self, ring, field, *args, **kw):
        import sympy
        self.stream.seed(kw.get('seed'))
        q = ('line', tuple(map(str, ring.ideal.generators)), self.stream.state)
        k = self.log.setdefault(q, len(self.log))
        return lambda t: {str(v): sympy.Symbol('line%d_%s' % (k, v)) + t * sympy.Symbol('dir%d_%s' % (k, v)) for v in ring.variables}


def slices(n, method, cons, alg, seed):
    def body(H):
        import lips
        import sympy
        from syngular import Field
        kw = dict(extra_constraints=cons, seed=seed)
        if alg:
            kw['algorithm'] = alg
        H.field('finite field')
        if not H.symbolic:
            F = Field(*FIELD['finite field'])
            seen = []
            for r in (12345, 54321, 999, 4321):      # the solver may choose another way, depending on how fast it was
                A = lips.Particles(n, field=F, seed=5)
                real_random.seed(r)
                limited(lambda: getattr(A, method)(**kw))
                seen.append(repr(comps(A)))
            H.true('the same slice', len(set(seen)) < len(seen), '')
            return
        S = Stream(H)
        S.concrete = True

        class SymbolDraw(Field):
            def random(self, shape=(1, )):
                return sympy.Symbol('draw[%s]' % S.key('element').replace(' ', '_'))

            def __deepcopy__(self, memo):
                return self
        F = SymbolDraw(*FIELD['finite field'])
        M, log = Mon(H), {}
        A, B = symbol_point(H, n, F), symbol_point(H, n, F)
        with S.patches():
            with SeededSolver(H, M, (), S, log).patches():
                getattr(A, method)(**kw)
                S.history()
                getattr(B, method)(**kw)
        rA, rB = comps(A), comps(B)
        for i in range(n):
            for k in (0, 1):
                for x, y in zip(rA[k][i], rB[k][i]):
                    d = sympy.expand(sympy.sympify(x) - sympy.sympify(y))
                    H.eq('leg %d: the same slice' % (i + 1), M.form(M.terms(d)), H.const(0))
    return body


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    seeds = [0, 1, -3, 2 ** 70, 'text', True, False]
    for field in ('finite field', 'padic', 'rational', 'gaussian rational', 'mpc'):
        for n in ((1, ) + ((2, 3) if deep else ())) if field == 'mpc' else (3, 4, 5) + ((6, 7) if deep else ()):
            for seed in seeds:
                if n != 4 and seed not in (0, 1):
                    continue
                out.append(Scenario('points:%d legs, %s, seed %r' % (n, field, seed), pts(n, field, seed, fix=field != 'mpc'), fields=[field]))
        for kind in ('list', 'tuple', 'set'):
            for seed in (0, 5):
                if field == 'mpc' and (kind, seed) != ('set', 5) and not deep:
                    continue
                out.append(Scenario('masses:%s of names, %s, seed %r' % (kind, field, seed), pts(1 if field == 'mpc' else 2, field, seed, fix=False, masses=kind), fields=[field]))
        for seed in (0, 9) if field != 'mpc' or deep else ():
            out.append(Scenario('points:no conservation, %s, seed %r' % (field, seed), pts(4, field, seed, fix=False), fields=[field]))
    for n in (1, 2):
        for seed in (0, 2):
            out.append(Scenario('real:%d legs, seed %r' % (n, seed), pts(n, 'mpc', seed, real=True, fix=False), fields=['mpc']))
    for n in (4, 5):
        for cons in ((), ('⟨12⟩', )):
            for seed in (0, 3):
                for method, alg in (('univariate_slice', None), ('univariate_slice', 'generic'), ('bivariate_slice', None)):
                    out.append(Scenario('slices:%s%s, %d legs, constraints %s, seed %r' % (method, ' ' + alg if alg else '', n, ' '.join(cons) or 'none', seed), slices(n, method, cons, alg, seed), fields=['finite field']))
    return out
