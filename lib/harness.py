"""Harness layer: one property body, run symbolically (z3 decides) or concretely (to replay a counterexample).

A property body is a function body(H).  It asks H for a field and for inputs, runs the real lips code, and states
assertions through H.  Under a symbolic H every assertion is a solver query (path condition and not assertion); under a
concrete H the same body runs on real field elements (mpmath, GF(p), rationals, p-adics), with nothing of lips replaced
except the source of random numbers, and the assertion is evaluated."""
import os
import sys
import json
import time
import random
import traceback
import warnings
from fractions import Fraction

warnings.filterwarnings('ignore')
import symx                                        # noqa: E402
from symx import Sym, SymAbs, SymBool, TrueBool, z3   # noqa: E402
import numpy                                       # noqa: E402
import mpmath                                      # noqa: E402
import syngular                                    # noqa: E402
from syngular import Field                         # noqa: E402
from pyadic import ModP, PAdic, GaussianRational   # noqa: E402

P31 = 2 ** 31 - 1
PADIC_P, PADIC_K = 10007, 12


class Violated(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


class Skip(BaseException):
    """Concrete run left the assumed domain."""


# ------------------------------------------------------------------------------------------------------------- fields

_SYM_CHAR = {'mpc': (0, 300), 'finite field': (P31, 1), 'padic': (PADIC_P, PADIC_K), 'rational': (0, 0), 'gaussian rational': (0, 0)}


class SymField(Field):
    """A field object whose elements are symbolic scalars.  Name, characteristic and digits are what lips branches on."""

    def __init__(self, name='mpc', tol=0, complex_=False):
        ch, dg = _SYM_CHAR[name]
        self._complex = complex_
        self._tol = tol
        self._name, self._characteristic, self._digits = name, ch, dg

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __call__(self, *args):
        if len(args) == 1:
            x = args[0]
            if x is None:
                return None
            if isinstance(x, str):
                if x in symx._registry:
                    return symx._registry[x]
                return Sym(Fraction(x))
            r = symx.lift(x)
            if r is NotImplemented:
                raise TypeError("cannot cast %r" % (x,))
            return r
        return Sym(Fraction(*args))

    @property
    def tollerance(self):
        return self._tol

    def sqrt(self, x):
        if self._name in ('rational', 'gaussian rational'):
            raise Exception("Field sqrt not implemented: %s" % self._name)      # as the real field does
        x = symx.lift(self(x) if isinstance(x, str) else x)
        return symx.sym_sqrt(x)

    def random(self, shape=(1, )):
        return symx.ctx().input('rnd', self._complex)

    def epsilon(self, *a, **k):
        raise symx.EngineLimit('epsilon')


class ConcField(Field):
    """A real field, whose random source is the replayed assignment (and, if given, whose tolerance is)."""

    def __init__(self, H, *args, tol=None):
        self._H = H
        self._fixed_tol = tol
        super().__init__(*args)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, other):
        return Field.__eq__(self, other)

    __hash__ = Field.__hash__

    def random(self, shape=(1, )):
        return self._H.var('rnd')

    @property
    def tollerance(self):
        if self._fixed_tol is not None:
            return self._fixed_tol
        return Field.tollerance.fget(self)


REAL = {'mpc': ('mpc', 0, 300), 'finite field': ('finite field', P31, 1), 'rational': ('rational', 0, 0),
        'gaussian rational': ('gaussian rational', 0, 0), 'padic': ('padic', PADIC_P, PADIC_K)}


# ------------------------------------------------------------------------------------------------------------ H (base)

class HBase(object):
    def particle(self, r, l):
        import lips
        return lips.Particle((numpy.array(r, dtype=object).reshape(2, 1), numpy.array(l, dtype=object).reshape(1, 2)), field=self.F)

    def raw_spinors(self, n, tag='p'):
        """2n free two-component spinors (λ_α, λ~_α.) as input variables."""
        return ([[self.var('%s%da' % (tag, i)), self.var('%s%db' % (tag, i))] for i in range(1, n + 1)],
                [[self.var('%s%dc' % (tag, i)), self.var('%s%dd' % (tag, i))] for i in range(1, n + 1)])

    def const(self, q):
        return Sym(Fraction(q)) if self.symbolic else self.conv(Fraction(q))

    def free(self, name, i, sym):
        """component of leg i: an input, or (legs outside `sym`) a fixed small integer"""
        if sym is None or i in sym:
            return self.var(name)
        k = sum((j + 1) * ord(c) for j, c in enumerate(name))
        return self.const((-1) ** (k // 3) * (1 + (7 * k * k + 3 * k + i) % 19))

    def cons_spinors(self, n, tag='p', sym=None):
        """Spinors of n massless momenta summing to zero: every such point with <n-1 n> != 0, in a polynomial
        parametrisation (the λ~ are parametrised up to the overall factor <n-1 n>).  sym: legs left symbolic."""
        r = [[self.free('%s%da' % (tag, i), i, sym), self.free('%s%db' % (tag, i), i, sym)] for i in range(1, n + 1)]
        u = [[self.free('%s%dc' % (tag, i), i, sym), self.free('%s%dd' % (tag, i), i, sym)] for i in range(1, n - 1)]

        def br(i, j):
            return r[i][0] * r[j][1] - r[i][1] * r[j][0]
        w = br(n - 2, n - 1)
        self.assume_nonzero(w)
        ll = [[w * x for x in row] for row in u]
        # sum_i λ_i λ~_i = 0: contract with λ_n and λ_{n-1}
        lm = [sum((br(n - 1, i) * u[i][k] for i in range(n - 2)), 0) for k in range(2)]
        ln = [sum((br(i, n - 2) * u[i][k] for i in range(n - 2)), 0) for k in range(2)]
        return r, ll + [lm, ln]

    def particles(self, rl, **kw):
        import lips
        r, ll = rl
        return lips.Particles([self.particle(a, b) for a, b in zip(r, ll)], field=self.F, fix_mom_cons=False, **kw)

    def raw(self, n, **kw):
        rl = self.raw_spinors(n)
        return self.particles(rl, **kw), rl

    def cons(self, n, sym=None, **kw):
        rl = self.cons_spinors(n, sym=sym)
        return self.particles(rl, **kw), rl

    # array-wise assertions
    def eq(self, label, a, b):
        A, B = numpy.asarray(a, dtype=object), numpy.asarray(b, dtype=object)
        if A.shape != B.shape:
            if A.size == 1 and B.size == 1:
                A, B = A.reshape(()), B.reshape(())
            else:
                self.fail(label, "shape %s instead of %s" % (A.shape, B.shape))
                return
        if A.size == 0:
            return
        self._eq_flat(label, A.reshape(-1).tolist(), B.reshape(-1).tolist())

    def fail(self, label, detail):
        self.true(label, False, detail)


# ----------------------------------------------------------------------------------------------------------- symbolic

class SymH(HBase):
    symbolic = True

    def __init__(self, c, scen, report):
        self.c, self.scen, self.report = c, scen, report
        self.F = None
        self.fieldname = None

    def field(self, name='mpc', tol=0, complex_=False, complex_sqrt=False):
        self.F = SymField(name, tol, complex_)
        self.c.complex_sqrt = complex_sqrt      # roots of real arguments: complex pair instead of a real number
        self.fieldname = name
        return self.F

    def var(self, name, complex_=None):
        return self.c.input(name, self.F._complex if complex_ is None and self.F is not None else bool(complex_))

    def real(self, name):
        return self.c.input(name, False)

    def choose(self, name, options):
        return self.c.choose(name, options)

    def assume(self, cnd):
        self.c.assume(cnd)

    def assume_nonzero(self, x):
        self.c.assume(~symx.eq_cond(symx.lift(x), Sym(Fraction(0))))

    def cond_eq(self, a, b):
        return symx.eq_cond(symx.lift(a), symx.lift(b))

    def _eq_flat(self, label, A, B):
        conds, lits = [], []
        for a, b in zip(A, B):
            la, lb = (x if x is None else symx.lift(x) for x in (a, b))
            if la is None or lb is None or la is NotImplemented or lb is NotImplemented:
                if a is b or (la is NotImplemented and lb is NotImplemented and a == b):
                    continue
                self.prove(label, z3.BoolVal(False), "%r instead of %r" % (a, b))
                return
            conds.append(symx.eq_cond(la, lb).c)
        if conds:
            self.prove(label, z3.And(*conds) if len(conds) > 1 else conds[0], None)

    def true(self, label, cnd, detail=None):
        self.prove(label, symx.cond(cnd), detail)

    def prove(self, label, cnd, detail):
        self.report.obligation(self, label, cnd, detail)


# ----------------------------------------------------------------------------------------------------------- concrete

class ConcH(HBase):
    symbolic = False

    def __init__(self, assignment, choices, fieldspec=None, rng=None, tol=None):
        self.assignment, self.choices = dict(assignment), dict(choices)
        self.fieldspec = fieldspec
        self.rng = rng or random.Random(7)
        self.names, self.F = set(), None
        self.used = {}
        self.tol = tol
        self.failures = []
        self.assumed = 0

    def field(self, name='mpc', tol=0, complex_=False, complex_sqrt=False):
        self.fieldname = name
        spec = self.fieldspec or REAL[name]
        t = None
        if not isinstance(tol, (int, Fraction)) or tol != 0:
            t = tol
        self.F = ConcField(self, *spec, tol=t)
        mpmath.mp.dps = 700             # well above the 300 digits the field claims: rounding must not decide a replay
        return self.F

    _name = symx.Ctx._name

    def conv(self, q, qi=None):
        name = self.fieldspec[0] if self.fieldspec else self.fieldname
        if name == 'mpc':
            re = mpmath.mpf(q.numerator) / q.denominator
            return mpmath.mpc(re, (mpmath.mpf(qi.numerator) / qi.denominator) if qi is not None else 0)
        if qi is not None and qi != 0 and name != 'gaussian rational':
            raise Skip("complex value")
        if name == 'rational':
            return Fraction(q)
        if name == 'gaussian rational':
            return GaussianRational(Fraction(q), Fraction(qi or 0))
        if name == 'finite field':
            if q.denominator % P31 == 0:
                raise Skip("denominator")
            return ModP(q.numerator % P31, P31) / ModP(q.denominator % P31, P31)
        if name == 'padic':
            if q.denominator % PADIC_P == 0:
                raise Skip("denominator")
            return PAdic(q.numerator, PADIC_P, PADIC_K) / PAdic(q.denominator, PADIC_P, PADIC_K)
        raise Skip(name)

    def var(self, name, complex_=None):
        n = self._name(name)
        q, qi = self.assignment.get(n, (None, None))
        if q is None:
            q = Fraction(self.rng.choice([-1, 1]) * self.rng.randrange(2, 999), self.rng.choice([1, 1, 2, 3, 5]))
            if complex_ and qi is None:
                qi = Fraction(self.rng.randrange(1, 99), 7)
        self.used[n] = (str(q), None if qi is None else str(qi))
        return self.conv(q, qi)

    def real(self, name):
        n = self._name(name)
        q, _ = self.assignment.get(n, (None, None))
        if q is None:
            q = Fraction(self.rng.randrange(1, 999), self.rng.choice([1, 2, 3, 5]))
        self.used[n] = (str(q), None)
        name = self.fieldspec[0] if self.fieldspec else self.fieldname
        return mpmath.mpf(q.numerator) / q.denominator if name == 'mpc' else q

    def choose(self, name, options):
        n = self._name(name)
        options = list(options)
        k = self.choices.get(n)
        if k is None:
            k = self.rng.randrange(len(options))
        return options[k]

    def assume(self, cnd):
        self.assumed += 1
        if not bool(cnd):
            raise Skip("assumption")

    def assume_nonzero(self, x):
        if x == 0:
            raise Skip("assumption")

    def cond_eq(self, a, b):
        return TrueBool(self.same(a, b))

    def same(self, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a is b or (isinstance(a, str) and a == b)
        try:
            if isinstance(a, (mpmath.mpc, mpmath.mpf, complex, float)) or isinstance(b, (mpmath.mpc, mpmath.mpf, complex, float)):
                a, b = mpmath.mpmathify(_frac(a)), mpmath.mpmathify(_frac(b))
                return bool(abs(a - b) <= mpmath.mpf(10) ** -120 * (1 + abs(a) + abs(b)))
            d = a - b
            return bool(d == 0)
        except TypeError:
            return bool(a == b)

    def _eq_flat(self, label, A, B):
        for k, (a, b) in enumerate(zip(A, B)):
            if not self.same(a, b):
                lab = label if len(A) == 1 else "%s[%d]" % (label, k)
                raise Violated(lab, "got %s, expected %s" % (_short(a), _short(b)))

    def true(self, label, cnd, detail=None):
        if not bool(cnd):
            raise Violated(label, detail or "assertion is false")


def _frac(x):
    if isinstance(x, Fraction):
        return mpmath.mpf(x.numerator) / x.denominator
    return x


def _short(x):
    if isinstance(x, (mpmath.mpc, mpmath.mpf)):
        return mpmath.nstr(x, 20)
    return str(x)[:120]


# ------------------------------------------------------------------------------------------------------------- running

class Scenario(object):
    """One instance of a property body: the discrete shape is fixed here, everything else is symbolic in the body.

    fields: real fields tried when a counterexample is replayed;  allow: exceptions the body lets through that are not
    violations (documented refusals);  known: substring identifying a listed finding."""

    def __init__(self, name, body, fields=None, allow=(), max_paths=600, timeout=20000, group=None, setup=None, budget=None):
        self.name, self.body, self.fields, self.allow = name, body, fields, tuple(allow)
        self.max_paths, self.timeout, self.setup = max_paths, timeout, setup
        self.budget = budget
        self.group = group or name.split(':')[0]


class Report(object):
    def __init__(self, scen, stats):
        self.scen, self.stats = scen, stats
        self.obligations = 0
        self.discharged = 0
        self.cands = []          # (label, assignment, choices, detail)
        self.unknown = []
        self.trivial = 0

    def obligation(self, H, label, cnd, detail):
        self.obligations += 1
        s = z3.simplify(cnd)
        if z3.is_true(s):
            self.trivial += 1
        r, m = symx.solve(H.c.pc, self.scen.timeout, self.stats, 'obligation', z3.Not(cnd))
        if r == 'unsat':
            self.discharged += 1
        elif r == 'sat':
            if len(self.cands) < 6:
                self.cands.append((label, read_model(H.c, m), dict(H.c.choices), detail))
        else:
            if len(self.unknown) < 6:
                self.unknown.append((label, dict(H.c.choices)))


def read_model(c, m):
    out = {}
    for n, (v, w) in c.inputs.items():
        out[n] = (val(m, v), val(m, w) if w is not None else None)
    return out


def val(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_int_value(x):
        return Fraction(x.as_long())
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        x = x.approx(400)
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return Fraction(0)


_traced = set()


def _profile(frame, event, arg):
    if event == 'call':
        co = frame.f_code
        fn = co.co_filename
        if '/lips/' in fn and not fn.startswith('/verif'):
            _traced.add((fn[fn.rindex('/lips/') + 1:], getattr(co, 'co_qualname', co.co_name)))


def run_scenario(scen, seed=1, deadline=None):
    """Returns a dict: verdict in {'holds','violation','inconclusive'} plus what was covered."""
    t0 = time.time()
    stats = symx.new_stats()
    rep = Report(scen, stats)
    paths = reach = 0
    raised, limits = [], []
    _traced.clear()
    budget = scen.budget
    dl = min(x for x in (deadline, t0 + budget if budget else None, t0 + 10 ** 6) if x is not None)

    def fn(c):
        if scen.setup:
            scen.setup()
        H = SymH(c, scen, rep)
        sys.setprofile(_profile)
        try:
            return scen.body(H)
        finally:
            sys.setprofile(None)
    for c, out, v in symx.explore(fn, stats, scen.max_paths, scen.timeout, dl):
        if out == 'limit':
            limits.append(str(v))
            if c is None:
                break
            continue
        if out == 'abandon':
            continue
        paths += 1
        r, m = symx.satisfiable(c.pc, 10000, stats)
        if r == 'unsat':
            limits.append("vacuous path (path condition unsatisfiable)%s" % (": " + repr(v) if out == 'raise' else ''))
            raised.append((v if out == 'raise' else None, {}, dict(c.choices), 'vacuous'))
            continue
        reach += (r == 'sat')
        if out == 'raise' and not isinstance(v, scen.allow):
            raised.append((v, read_model(c, m) if m is not None else {}, dict(c.choices), 'raise'))
    res = {'name': scen.name, 'paths': paths, 'reachable': reach, 'obligations': rep.obligations, 'discharged': rep.discharged,
           'trivial': rep.trivial, 'stats': stats, 'functions': sorted("%s:%s" % t for t in _traced), 'seed': seed}
    # --- candidates: replay on the real code
    viol = None
    tried = []
    for label, asg, ch, detail in rep.cands:
        viol = replay_candidate(scen, asg, ch, seed, tried)
        if viol:
            viol['symbolic_label'] = label
            break
    if not viol:
        for e, asg, ch, kind in raised[:8]:
            viol = replay_candidate(scen, asg, ch, seed, tried, expect_raise=True)
            if viol:
                viol['symbolic_label'] = 'raises %r' % (e,)
                break
    if not viol and (rep.unknown or limits):
        for ch in ([u[1] for u in rep.unknown] or [{}])[:3]:
            viol = replay_candidate(scen, {}, ch, seed, tried)
            if viol:
                viol['symbolic_label'] = 'unknown: %s' % (rep.unknown[:1] or limits[:1])
                break
    if viol:
        res['verdict'], res['violation'] = 'violation', viol
    elif rep.cands or raised or rep.unknown or limits:
        res['verdict'] = 'inconclusive'
        res['why'] = {'sat_not_replayed': [(x[0], _js(x[1]), x[2]) for x in rep.cands[:2]], 'raised': [(repr(x[0]), tb(x[0]), x[2]) for x in raised[:2]],
                      'unknown': rep.unknown[:3], 'limits': limits[:3], 'replays': tried[:6]}
    elif rep.obligations == 0 or reach == 0:
        res['verdict'] = 'inconclusive'
        res['why'] = {'limits': ['nothing was asserted or no path is reachable']}
    else:
        res['verdict'] = 'holds'
    res['wall_s'] = time.time() - t0
    return res


def tb(e):
    if e is None:
        return ''
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])[-600:]


def _js(asg):
    return {k: [str(v[0]), None if v[1] is None else str(v[1])] for k, v in asg.items()}


def replay_candidate(scen, asg, choices, seed, tried, expect_raise=False):
    """Concrete runs on real fields: the model itself first, then points around it (same discrete choices)."""
    fields = scen.fields or ['mpc', 'finite field']
    for fname in fields:
        spec = REAL[fname]
        zero = 0
        for attempt in range(4):
            a = asg if attempt == 0 else ({} if attempt > 1 else {k: v for k, v in asg.items() if v[0] not in (0, 1, -1)})
            if attempt == 0 and not asg:
                continue
            H = ConcH(a, choices, spec, random.Random(seed * 1000 + attempt))
            out, detail = run_concrete(scen, H)
            tried.append("%s/%d: %s %s" % (fname, attempt, out, detail[:100]))
            if out in ('violated', 'raised'):
                return {'field': fname, 'assignment': H.used, 'choices': choices, 'outcome': out, 'detail': detail, 'tol': None}
            if out == 'zerodiv':
                zero += 1
        if expect_raise and zero >= 3:
            return {'field': fname, 'assignment': H.used, 'choices': choices, 'outcome': 'raised', 'detail': detail, 'tol': None}
    return None


def run_concrete(scen, H):
    if scen.setup:
        scen.setup()
    state = random.getstate()
    dps = mpmath.mp.dps
    mpmath.mp.dps = 300
    try:
        scen.body(H)
        return 'held', ''
    except Violated as e:
        return 'violated', "%s: %s" % (e.label, e.detail)
    except Skip as e:
        return 'skipped', str(e)
    except ZeroDivisionError as e:
        if ZeroDivisionError in scen.allow:
            return 'held', 'refused: %r' % e
        return 'zerodiv', repr(e)
    except (NameError, ImportError) as e:
        return 'skipped', 'harness: %r' % e
    except Exception as e:
        if scen.allow and isinstance(e, scen.allow):
            return 'held', 'refused: %r' % e
        return 'raised', "%s: %s | %s" % (type(e).__name__, e, tb(e)[-300:])
    finally:
        mpmath.mp.dps = dps
        random.setstate(state)
