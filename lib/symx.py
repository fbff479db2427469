"""Symbolic execution of the real `lips` code over z3 real arithmetic.

The code under test is Python that computes with whatever scalar type its arrays hold.  We hand it `Sym` scalars:
elements of the fraction field Q(i)(x1, ..., xk), stored as (re + i*im) / prod(den factors), with re, im and the factors
z3 Real terms.  Every comparison the code makes yields a `SymBool`; asking for its truth value forks the execution
(replay-based depth-first exploration, both sides checked for feasibility with z3).  Nothing of lips is re-modelled: the
imported functions run as they are, so the encoding is regenerated from /repo's source on each run.
"""
import sys
import time
import itertools
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)          # appended: numpy, sympy etc. keep coming from the interpreter's own environment

import z3                          # noqa: E402
import numpy                       # noqa: E402
import mpmath                      # noqa: E402
import sympy                       # noqa: E402


class EngineLimit(BaseException):
    """The encoding cannot follow the code here (never a verdict).  BaseException: lips must not swallow it."""


class Abandon(BaseException):
    """Stop this path (assumption violated).  BaseException: the code under test must not swallow it."""


class PathLimit(BaseException):
    pass


# ----------------------------------------------------------------------------------------------------------- constants

def const(x):
    """Exact value of a number as a pair (re, im) of Fractions (or None if it is not a plain number)."""
    if isinstance(x, (bool, numpy.bool_)):
        return Fraction(int(x)), Fraction(0)
    if isinstance(x, int):
        return Fraction(x), Fraction(0)
    if isinstance(x, Fraction):
        return x, Fraction(0)
    if isinstance(x, numpy.integer):
        return Fraction(int(x)), Fraction(0)
    if isinstance(x, (float, numpy.floating)):
        return Fraction(float(x)), Fraction(0)
    if isinstance(x, (complex, numpy.complexfloating)):
        return Fraction(x.real), Fraction(x.imag)
    if isinstance(x, mpmath.mpf):
        return _mpf(x), Fraction(0)
    if isinstance(x, mpmath.mpc):
        return _mpf(x.real), _mpf(x.imag)
    if isinstance(x, sympy.Rational):
        return Fraction(int(x.p), int(x.q)), Fraction(0)
    if hasattr(x, 'real') and hasattr(x, 'imag') and isinstance(getattr(x, 'real', None), Fraction):   # GaussianRational
        return x.real, Fraction(x.imag)
    return None


def _mpf(x):
    man, exp = mpmath.mpf(x).man_exp
    return Fraction(int(man)) * Fraction(2) ** int(exp)


def zc(q):
    return z3.RealVal(str(q))


def isc(t):
    return isinstance(t, Fraction)


def zt(t):
    return zc(t) if isc(t) else t


def padd(a, b):
    if isc(a):
        if isc(b):
            return a + b
        if a == 0:
            return b
    elif isc(b) and b == 0:
        return a
    return zt(a) + zt(b)


def pneg(a):
    return -a if isc(a) else -a


def pmul(a, b):
    if isc(a):
        if isc(b):
            return a * b
        if a == 0:
            return a
        if a == 1:
            return b
        if a == -1:
            return -b
    elif isc(b):
        return pmul(b, a)
    return zt(a) * zt(b)


ZERO, ONE = Fraction(0), Fraction(1)


# --------------------------------------------------------------------------------------------------------------- Sym

_registry = {}
_counter = itertools.count(1)


class Sym(object):
    __slots__ = ('re', 'im', 'den', 'tag')

    def __init__(self, re, im=ZERO, den=()):
        self.re, self.im, self.den = re, im, den     # den: tuple of (ast id, term, power), sorted by id
        self.tag = None

    # -- plumbing
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic value")

    def __repr__(self):
        if self.is_const():
            return _const_str(self.re, self.im)
        if self.tag is None:
            self.tag = "Sym#%d" % next(_counter)
            _registry[self.tag] = self
        return self.tag
    __str__ = __repr__

    def is_const(self):
        return isc(self.re) and isc(self.im) and not self.den

    def is_real(self):
        return isc(self.im) and self.im == 0

    @property
    def real(self):
        return Sym(self.re, ZERO, self.den)

    @property
    def imag(self):
        return Sym(self.im, ZERO, self.den)

    def conjugate(self):
        return Sym(self.re, pneg(self.im), self.den)

    def den_term(self):
        return _prod(self.den)

    # -- arithmetic
    def __neg__(self):
        return Sym(pneg(self.re), pneg(self.im), self.den)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if self.den == o.den:
            return Sym(padd(self.re, o.re), padd(self.im, o.im), self.den)
        den, ca, cb = _lcm(self.den, o.den)
        return Sym(padd(pmul(self.re, ca), pmul(o.re, cb)), padd(pmul(self.im, ca), pmul(o.im, cb)), den)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return o if o is NotImplemented else self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        return o if o is NotImplemented else o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        re = padd(pmul(self.re, o.re), pneg(pmul(self.im, o.im)))
        im = padd(pmul(self.re, o.im), pmul(self.im, o.re))
        if isc(re) and isc(im) and re == 0 and im == 0:
            return Sym(ZERO)
        return Sym(re, im, _merge(self.den, o.den))
    __rmul__ = __mul__

    def inverse(self):
        if self.is_const():
            n = self.re * self.re + self.im * self.im
            if n == 0:
                raise ZeroDivisionError("division by symbolic zero")
            return Sym(self.re / n, -self.im / n)
        d = self.den_term()
        if self.is_real():
            if isc(self.re):
                if self.re == 0:
                    raise ZeroDivisionError("division by symbolic zero")
                return Sym(pmul(1 / self.re, d), ZERO)
            sgn, fac = _factor(self.re)
            ctx().nonzero(fac)
            return Sym(pmul(sgn, d), ZERO, ((fac.get_id(), fac, 1),))
        n = padd(pmul(self.re, self.re), pmul(self.im, self.im))
        sgn, fac = _factor(zt(n))
        ctx().nonzero(fac)
        return Sym(pmul(sgn, pmul(self.re, d)), pmul(-sgn, pmul(self.im, d)), ((fac.get_id(), fac, 1),))

    def __truediv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else self * o.inverse()

    def __rtruediv__(self, o):
        o = lift(o)
        return o if o is NotImplemented else o * self.inverse()

    def __pow__(self, k):
        c = const(k) if not isinstance(k, Sym) else ((k.re, k.im) if k.is_const() else None)
        if c is None or c[1] != 0:
            raise EngineLimit("symbolic exponent")
        q = c[0]
        if q.denominator == 1:
            k = int(q)
            if k < 0:
                return self.inverse() ** (-k)
            r = Sym(ONE)
            for _ in range(k):
                r = r * self
            return r
        if q.denominator == 2:
            return sym_sqrt(self) ** q.numerator
        raise EngineLimit("exponent %s" % q)

    def __rpow__(self, o):
        raise EngineLimit("symbolic exponent")

    def sqrt(self):                       # numpy.sqrt on object arrays calls this
        return sym_sqrt(self)

    # -- comparisons
    def __eq__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return False
        return eq_cond(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash((str(self.re), str(self.im), self.den and str(self.den_term())))

    def _ord(self, o, op):
        o = lift(o)
        if o is NotImplemented:
            return o
        d = self - o
        if not d.is_real():
            raise TypeError("no ordering relation is defined for complex numbers")
        if not d.den:
            return mkbool(op(zt(d.re), zc(ZERO)) if not isc(d.re) else op(d.re, 0))
        return mkbool(op(zt(pmul(d.re, d.den_term())), zc(ZERO)))

    def __lt__(self, o): return self._ord(o, lambda a, b: a < b)        # noqa
    def __le__(self, o): return self._ord(o, lambda a, b: a <= b)       # noqa
    def __gt__(self, o): return self._ord(o, lambda a, b: a > b)        # noqa
    def __ge__(self, o): return self._ord(o, lambda a, b: a >= b)       # noqa

    def __bool__(self):
        return bool(self != 0)

    def __abs__(self):
        return SymAbs(self)

    def __float__(self):
        if self.is_const() and self.is_real():
            return float(self.re)
        raise EngineLimit("float() of a symbolic value")

    def __int__(self):
        if self.is_const() and self.is_real() and self.re.denominator == 1:
            return int(self.re)
        raise EngineLimit("int() of a symbolic value")

    def __complex__(self):
        if self.is_const():
            return complex(self.re, self.im)
        raise EngineLimit("complex() of a symbolic value")

    __index__ = None


class SymAbs(object):
    """|x| of a Sym: only ordered against other values; arithmetic falls back to a fresh non-negative real."""
    __slots__ = ('x', '_s')

    def __init__(self, x):
        self.x, self._s = x, None

    def __deepcopy__(self, memo):
        return self

    def sq(self):
        x = self.x
        n2 = padd(pmul(x.re, x.re), pmul(x.im, x.im))
        d = tuple((i, t, 2 * p) for i, t, p in x.den)
        return Sym(n2, ZERO, d)

    def sym(self):
        if self._s is None:
            x = self.x
            if x.is_const() and x.is_real():
                self._s = Sym(abs(x.re))
            else:
                s = ctx().fresh('abs')
                ctx().side(zt(s.re) >= 0)
                ctx().side(eq_cond(s * s, self.sq()).c)
                self._s = s
        return self._s

    def __abs__(self): return self                                       # noqa
    def __repr__(self): return '|...|'                                   # noqa
    __str__ = __repr__

    def _ord(self, o, op, strict_when_neg):
        if isinstance(o, SymAbs):
            return (self.sq())._ord(o.sq(), op)
        o = lift(o)
        if o is NotImplemented:
            return o
        if o.is_const() and o.is_real() and o.re == 0:    # |x| vs 0
            z = eq_cond(self.x, Sym(ZERO))
            return strict_when_neg['zero'](z)
        neg = o._ord(0, lambda a, b: a < b)
        body = self.sq()._ord(o * o, op)
        return mkbool(z3.If(neg.c, z3.BoolVal(strict_when_neg['neg']), body.c) if not neg.is_const() else
                      (strict_when_neg['neg'] if neg.value() else body.c))

    def __lt__(self, o): return self._ord(o, lambda a, b: a < b, {'zero': lambda z: mkbool(False), 'neg': False})   # noqa
    def __le__(self, o): return self._ord(o, lambda a, b: a <= b, {'zero': lambda z: z, 'neg': False})              # noqa
    def __gt__(self, o): return self._ord(o, lambda a, b: a > b, {'zero': lambda z: ~z, 'neg': True})               # noqa
    def __ge__(self, o): return self._ord(o, lambda a, b: a >= b, {'zero': lambda z: mkbool(True), 'neg': True})    # noqa

    def __eq__(self, o):
        if isinstance(o, SymAbs):
            return eq_cond(self.sq(), o.sq())
        o = lift(o)
        if o is NotImplemented:
            return False
        if o.is_const() and o.re == 0 and o.im == 0:
            return eq_cond(self.x, o)
        return eq_cond(self.sq(), o * o) & (o >= 0)

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self): return hash(('abs', self.x))                      # noqa
    def __bool__(self): return bool(self.x != 0)                         # noqa
    def __add__(self, o): return self.sym() + _un(o)                     # noqa
    __radd__ = __add__
    def __mul__(self, o): return self.sym() * _un(o)                     # noqa
    __rmul__ = __mul__
    def __sub__(self, o): return self.sym() - _un(o)                     # noqa
    def __rsub__(self, o): return _un(o) - self.sym()                    # noqa
    def __truediv__(self, o): return self.sym() / _un(o)                 # noqa
    def __rtruediv__(self, o): return _un(o) / self.sym()                # noqa
    def __pow__(self, k): return self.sq() ** (k // 2) if isinstance(k, int) and k % 2 == 0 else self.sym() ** k   # noqa
    def __neg__(self): return -self.sym()                                # noqa
    def __float__(self): return float(self.sym())                        # noqa


class SymMax(object):
    """max of several magnitudes, kept as a set: comparisons become disjunctions/conjunctions, without deciding which
    element is the largest."""
    __slots__ = ('xs', '_s')

    def __init__(self, xs):
        self.xs, self._s = list(xs), None

    def __deepcopy__(self, memo):
        return self

    def sym(self):
        if self._s is None:
            xs = [x.sym() if isinstance(x, SymAbs) else lift(x) for x in self.xs]
            s = ctx().fresh('max')
            for x in xs:
                ctx().side((s >= x).c)
            ctx().side(z3.Or(*[eq_cond(s, x).c for x in xs]))
            self._s = s
        return self._s

    def _any(self, f):
        return mkbool(z3.Or(*[cond(f(x)) for x in self.xs]))

    def _all(self, f):
        return mkbool(z3.And(*[cond(f(x)) for x in self.xs]))

    def __abs__(self): return self                                       # noqa
    def __repr__(self): return 'max(...)' if _current[0] is None else repr(self.sym())      # noqa
    __str__ = __repr__
    def __gt__(self, o): return self._any(lambda x: x > o)               # noqa
    def __ge__(self, o): return self._any(lambda x: x >= o)              # noqa
    def __lt__(self, o): return self._all(lambda x: x < o)               # noqa
    def __le__(self, o): return self._all(lambda x: x <= o)              # noqa
    def __eq__(self, o): return (self <= o) & (self >= o)                # noqa
    def __ne__(self, o): return ~(self == o)                             # noqa
    def __hash__(self): return hash(tuple(hash(x) for x in self.xs))     # noqa
    def __bool__(self): return bool(self != 0)                           # noqa
    def __add__(self, o): return self.sym() + _un(o)                     # noqa
    __radd__ = __add__
    def __mul__(self, o): return self.sym() * _un(o)                     # noqa
    __rmul__ = __mul__
    def __sub__(self, o): return self.sym() - _un(o)                     # noqa
    def __rsub__(self, o): return _un(o) - self.sym()                    # noqa
    def __truediv__(self, o): return self.sym() / _un(o)                 # noqa
    def __rtruediv__(self, o): return _un(o) / self.sym()                # noqa


class SymMin(SymMax):
    """min of several magnitudes, likewise."""
    __slots__ = ()

    def sym(self):
        if self._s is None:
            xs = [lift(x) for x in self.xs]
            s = ctx().fresh('min')
            for x in xs:
                ctx().side((s <= x).c)
            ctx().side(z3.Or(*[eq_cond(s, x).c for x in xs]))
            self._s = s
        return self._s

    def __gt__(self, o): return self._all(lambda x: x > o)               # noqa
    def __ge__(self, o): return self._all(lambda x: x >= o)              # noqa
    def __lt__(self, o): return self._any(lambda x: x < o)               # noqa
    def __le__(self, o): return self._any(lambda x: x <= o)              # noqa
    __hash__ = SymMax.__hash__


_max, _min = max, min


def _pick(args, kw, plain, cls):
    if kw:
        return plain(*args, **kw)
    xs = list(args[0]) if len(args) == 1 else list(args)
    if len(xs) > 1 and any(isinstance(x, (SymAbs, SymMax)) for x in xs) and all(
            isinstance(x, (SymAbs, SymMax)) or (const(x) is not None) or (isinstance(x, Sym) and x.is_real()) for x in xs):
        return cls(xs)
    return plain(xs)


def smax(*args, **kw):
    """The builtin max, except that the max of symbolic magnitudes is not decided element by element."""
    return _pick(args, kw, _max, SymMax)


def smin(*args, **kw):
    return _pick(args, kw, _min, SymMin)


def install_builtins(prefix='lips'):
    for name, mod in list(sys.modules.items()):
        if (name == prefix or name.startswith(prefix + '.')) and mod is not None:
            mod.__dict__.setdefault('max', smax)
            mod.__dict__.setdefault('min', smin)


def _un(o):
    return o.sym() if isinstance(o, (SymAbs, SymMax)) else o


def _const_str(re, im):
    if im == 0:
        return str(re)
    return "(%s+%sj)" % (re, im)


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (SymAbs, SymMax)):
        return x.sym()
    if isinstance(x, mpmath.mpf) and x._mpf_ not in _mp_ok:
        s = _mp_algebraic(x)
        if s is not None:
            return s
    c = const(x)
    if c is None:
        return NotImplemented
    return Sym(*c)


_mp_ok = set()


def _mp_algebraic(x):
    """sqrt(small rational) written by the code as a high precision float becomes that algebraic number."""
    q = _mpf(x)
    if q.denominator < 10 ** 12:
        return None
    sq = (q * q).limit_denominator(10 ** 6)
    if abs(sq - q * q) < Fraction(1, 10 ** 40):
        s = ctx().sqrt_const(sq)
        return s if q > 0 else -s
    return None


def _prod(den):
    r = ONE
    for _, t, p in den:
        for _ in range(p):
            r = pmul(r, t)
    return r


def _merge(a, b):
    if not a:
        return b
    if not b:
        return a
    d = {i: [t, p] for i, t, p in a}
    for i, t, p in b:
        if i in d:
            d[i][1] += p
        else:
            d[i] = [t, p]
    return tuple((i, d[i][0], d[i][1]) for i in sorted(d))


def _lcm(a, b):
    da = {i: (t, p) for i, t, p in a}
    db = {i: (t, p) for i, t, p in b}
    out, ca, cb = [], ONE, ONE
    for i in sorted(set(da) | set(db)):
        pa = da[i][1] if i in da else 0
        pb = db[i][1] if i in db else 0
        t = (da.get(i) or db.get(i))[0]
        out.append((i, t, max(pa, pb)))
        for _ in range(max(pa, pb) - pa):
            ca = pmul(ca, t)
        for _ in range(max(pa, pb) - pb):
            cb = pmul(cb, t)
    return tuple(out), ca, cb


_factor_cache = {}


def _factor(t):
    """Normal form of a denominator term up to a rational constant: (sign, factor) with 1/t = sign/factor."""
    k = t.get_id()
    if k in _factor_cache:
        return _factor_cache[k][1:]
    n = z3.simplify(t, som=True) if _size(t) < 400 else t
    sgn = ONE
    if z3.is_rational_value(n):
        q = Fraction(n.numerator_as_long(), n.denominator_as_long())
        if q == 0:
            raise ZeroDivisionError("division by symbolic zero")
        _factor_cache[k] = (t, 1 / q, zc(ONE))
        return 1 / q, zc(ONE)
    m = z3.simplify(-n, som=True) if n is not t else None
    if m is not None and m.sexpr() < n.sexpr():
        n, sgn = m, -ONE
    _factor_cache[k] = (t, sgn, n)       # keeps t alive: z3 may reuse ids of dead terms
    return sgn, n


def _size(t, lim=400):
    seen, todo = set(), [t]
    while todo and len(seen) <= lim:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return len(seen)


def eq_cond(a, b):
    d = a - b
    cs = []
    for part in (d.re, d.im):
        if isc(part):
            if part != 0:
                return mkbool(False)
        else:
            cs.append(part == 0)
    if not cs:
        return mkbool(True)
    return mkbool(z3.And(*cs) if len(cs) > 1 else cs[0])


def sym_sqrt(x):
    x = lift(x)
    if x.is_const() and x.is_real():
        return ctx().sqrt_const(x.re)
    return ctx().sqrt(x)


# ------------------------------------------------------------------------------------------------------------ SymBool

class SymBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def is_const(self):
        return False

    def value(self):
        raise EngineLimit("not constant")

    def __bool__(self):
        return ctx().branch(self.c)

    def __and__(self, o):
        return mkbool(z3.And(self.c, cond(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.c, cond(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.c))

    def __eq__(self, o):
        return mkbool(self.c == cond(o))

    def __ne__(self, o):
        return mkbool(self.c != cond(o))

    def __hash__(self):
        return hash(self.c)


class TrueBool(object):
    """A decided condition that still supports &, |, ~ (a plain bool would turn ~ into integer complement)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = bool(v)

    c = property(lambda s: z3.BoolVal(s.v))

    def is_const(self):
        return True

    def value(self):
        return self.v

    def __bool__(self):
        return self.v

    def __and__(self, o):
        return mkbool(z3.And(self.c, cond(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.c, cond(o)))
    __ror__ = __or__

    def __invert__(self):
        return TrueBool(not self.v)

    def __eq__(self, o):
        return mkbool(self.c == cond(o))

    def __hash__(self):
        return hash(self.v)


def mkbool(c):
    if isinstance(c, (bool, numpy.bool_)):
        return TrueBool(c)
    c1 = z3.simplify(c)
    if z3.is_true(c1):
        return TrueBool(True)
    if z3.is_false(c1):
        return TrueBool(False)
    return SymBool(c)


def cond(x):
    if isinstance(x, (SymBool, TrueBool)):
        return x.c
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


# ------------------------------------------------------------------------------------------------------------ context

_current = [None]


def ctx():
    if _current[0] is None:
        raise EngineLimit("no symbolic context")
    return _current[0]


_roots = {}      # id of a root variable -> (variable, its square)


def _pairs(t, var, sq, memo):
    """t as u + v*var with var^2 = sq (u, v free of var, or None for zero)."""
    k = t.get_id()
    if k in memo:
        return memo[k]
    if k == var.get_id():
        r = (ZERO, ONE)
    elif var.get_id() not in term_vars(t):
        r = (t, ZERO)
    else:
        d = t.decl().kind()
        ch = [_pairs(c, var, sq, memo) for c in t.children()]
        if d == z3.Z3_OP_ADD:
            r = (ZERO, ZERO)
            for c in ch:
                r = (padd(r[0], c[0]), padd(r[1], c[1]))
        elif d == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = (padd(r[0], pneg(c[0])), padd(r[1], pneg(c[1])))
        elif d == z3.Z3_OP_UMINUS:
            r = (pneg(ch[0][0]), pneg(ch[0][1]))
        elif d == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = (padd(pmul(r[0], c[0]), pmul(pmul(r[1], c[1]), sq)), padd(pmul(r[0], c[1]), pmul(r[1], c[0])))
        else:
            raise EngineLimit("operator in root elimination")
    memo[k] = r
    return r


def eliminate_roots(p):
    """Polynomials without root variables whose vanishing implies that p vanishes."""
    todo, out = [p], []
    while todo:
        t = todo.pop()
        if isc(t):
            out.append(t)
            continue
        vs = [v for v in term_vars(t) if v in _roots]
        if not vs:
            out.append(t)
            continue
        var, sq = _roots[max(vs)]      # latest first: its square may contain earlier roots
        todo.extend(_pairs(t, var, sq, {}))
    return out


def _equalities(c, out):
    """c as a conjunction of equations lhs == rhs (None if it is not one)."""
    k = c.decl().kind()
    if k == z3.Z3_OP_AND:
        return all(_equalities(x, out) for x in c.children())
    if k == z3.Z3_OP_EQ and c.children()[0].sort() == z3.RealSort():
        a, b = c.children()
        out.append(a - b)
        return True
    if k == z3.Z3_OP_TRUE:
        return True
    return False


def identity_goal(goal):
    """For goal = not(p1 == 0 and ...): an equivalent-or-weaker goal about polynomials without roots (or None)."""
    if goal.decl().kind() != z3.Z3_OP_NOT:
        return None
    eqs = []
    if not _equalities(goal.children()[0], eqs):
        return None
    if not any(v in _roots for e in eqs for v in term_vars(e)):
        return None
    try:
        ps = [q for e in eqs for q in eliminate_roots(e)]
    except (EngineLimit, RecursionError):
        return None
    if any(isc(q) and q != 0 for q in ps):
        return None
    cs = [zt(q) == 0 for q in ps if not isc(q)]
    return z3.Not(z3.And(*cs)) if cs else z3.BoolVal(False)


class Ctx(object):
    """One path of one symbolic execution."""

    def __init__(self, prefix=(), stats=None, timeout=20000, max_depth=400):
        self.prefix, self.taken = list(prefix), []
        self.pending = []                    # alternative decision prefixes still to explore
        self.pc = []                         # path condition: branch outcomes, assumptions, definitions
        self.inputs = {}                     # name -> (z3 var re, z3 var im or None)
        self.choices = {}                    # name -> chosen option (repr)
        self.names = set()
        self.nz = {}
        self.sq = {}
        self.stats = stats if stats is not None else new_stats()
        self.timeout, self.max_depth = timeout, max_depth
        self.complex_sqrt = False
        self.decided = {}                    # branch conditions decided on this path
        self.keep = []                       # terms whose ids serve as keys stay alive

    # variables
    def _name(self, name):
        n, k = name, 1
        while n in self.names:
            k += 1
            n = "%s.%d" % (name, k)
        self.names.add(n)
        return n

    def input(self, name, complex_=False):
        n = self._name(name)
        v = z3.Real(n)
        w = z3.Real(n + "~im") if complex_ else None
        self.inputs[n] = (v, w)
        return Sym(v, w if w is not None else ZERO)

    def fresh(self, name):
        return Sym(z3.Real(self._name('$' + name)))

    def int_input(self, name):
        n = self._name(name)
        v = z3.Int(n)
        self.inputs[n] = (v, None)
        return v

    def side(self, c):
        self.pc.append(c)

    def nonzero(self, t):
        if t.get_id() not in self.nz:
            self.nz[t.get_id()] = t
            self.pc.append(t != 0)

    def sqrt_const(self, q):
        q = Fraction(q)
        for cand in (q,):
            if cand >= 0:
                n, d = _isqrt(cand.numerator), _isqrt(cand.denominator)
                if n is not None and d is not None:
                    return Sym(Fraction(n, d))
        if q < 0:
            return self.sqrt_const(-q) * Sym(ZERO, ONE)
        key = ('c', q)
        if key not in self.sq:
            s = self.fresh('sqrt_%s' % q)
            self.side(zt(s.re) * zt(s.re) == zc(q))
            self.side(zt(s.re) > 0)
            self.sq[key] = s
        return self.sq[key]

    def sqrt(self, x):
        """A square root of x: a fresh real s with s*s == x (so the encoding looks at real x >= 0; -x then has the roots
        +-i*s), or a fresh complex pair when x is complex.  Which of the two roots is meant is left open."""
        if x.is_real() and not isc(x.re):
            n = z3.simplify(x.re, som=True) if _size(x.re) < 400 else x.re
            m = z3.simplify(-n, som=True) if _size(x.re) < 400 else -x.re
            dk = tuple((i, p) for i, _, p in x.den)
            self.keep.extend((n, m))
            key, nkey = (n.get_id(), dk), (m.get_id(), dk)
        else:
            self.keep.append((x.re, x.im))
            key, nkey = tuple(t if isc(t) else ('t', t.get_id()) for t in (x.re, x.im)) + (tuple((i, p) for i, _, p in x.den),), None
        if key in self.sq:
            return self.sq[key][0]
        if nkey in self.sq and not self.complex_sqrt:
            e = self.fresh('sign')
            self.side(zt(e.re) * zt(e.re) == 1)
            s = self.sq[nkey][0] * e * Sym(ZERO, ONE)
            self.sq[key] = (s, x)
            return s
        if x.is_real() and not self.complex_sqrt:
            # s = s'/den with s'^2 = num*den, so that the root is integral over the polynomials (or num alone, den a square)
            if all(p % 2 == 0 for _, _, p in x.den):
                num, den = x.re, tuple((i, t, p // 2) for i, t, p in x.den)
            else:
                num, den = pmul(x.re, x.den_term()), x.den
            v = self.fresh('sqrt')
            self.side(zt(v.re) * zt(v.re) == zt(num))
            _roots[v.re.get_id()] = (v.re, num)
            s = Sym(v.re, ZERO, den)
            self.sq[key] = (s, x)
            return s
        else:
            a, b = self.fresh('sqrt_re'), self.fresh('sqrt_im')
            s = Sym(a.re, b.re)
        self.side(eq_cond(s * s, x).c)
        self.sq[key] = (s, x)
        return s

    # control
    def check(self, goal, timeout=None, kind='feasibility'):
        return solve(self.pc, timeout or self.timeout, self.stats, kind, goal)

    def branch(self, c, free=False):
        """free: both outcomes are known to be possible (a fresh variable), no query needed"""
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return True
        if z3.is_false(cs):
            return False
        hit = self.decided.get(cs.get_id())
        if hit is not None:                  # the same condition was decided on this path already
            return hit[1]
        k = len(self.taken)
        if k >= self.max_depth:
            raise PathLimit("more than %d symbolic branches on one path" % self.max_depth)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            rt, _ = ('sat', None) if free else self.check(c, timeout=5000)
            if rt == 'unsat':
                v = False
            else:
                rf, _ = ('sat', None) if free else self.check(z3.Not(c), timeout=5000)
                v = True
                if rf != 'unsat':
                    self.pending.append(self.taken + [False])
                    self.stats['forks'] += 1
        self.taken.append(v)
        self.decided[cs.get_id()] = (cs, v)
        self.pc.append(c if v else z3.Not(c))
        return v

    def choose(self, name, options):
        """A discrete nondeterministic choice: a bounded symbolic integer, case split by the solver."""
        n = self._name(name)
        options = list(options)
        if len(options) == 1:
            self.choices[n] = 0
            return options[0]
        k = z3.Int(n)
        self.pc.append(z3.And(k >= 0, k < len(options)))
        for i in range(len(options) - 1):
            if self.branch(k == i, free=True):
                self.choices[n] = i
                return options[i]
        self.choices[n] = len(options) - 1
        return options[-1]

    def assume(self, c):
        c = cond(c)
        if z3.is_false(z3.simplify(c)):
            raise Abandon()
        self.pc.append(c)


def _isqrt(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def new_stats():
    return {'queries': 0, 'solver_s': 0.0, 'forks': 0, 'sat': 0, 'unsat': 0, 'unknown': 0,
            'feasibility': 0, 'obligation': 0, 'vacuity': 0}


_vars_cache = {}


def term_vars(t):
    """Free variables of a z3 term, as a dict id -> constant (memoised on every shared subterm)."""
    k = t.get_id()
    hit = _vars_cache.get(k)
    if hit is not None:
        return hit[1]
    todo = [(t, None)]
    while todo:
        x, ch = todo.pop()
        i = x.get_id()
        if i in _vars_cache:
            continue
        if ch is None:
            ch = x.children()
            if not ch:
                _vars_cache[i] = (x, {i: x} if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED else {})
                continue
            miss = [c for c in ch if c.get_id() not in _vars_cache]
            if miss:
                todo.append((x, ch))
                todo.extend((c, None) for c in miss)
                continue
        out = {}
        for c in ch:
            out.update(_vars_cache[c.get_id()][1])
        _vars_cache[i] = (x, out)
    return _vars_cache[k][1]


def slice_cone(constraints, seeds):
    """Constraints connected to the seed terms through shared variables (an unsat slice makes the whole unsat; a sat
    slice has a model that extends to the rest, which shares no variable with it, whenever the rest is satisfiable)."""
    vs = set()
    for t in seeds:
        vs |= set(term_vars(t))
    rest = [(c, set(term_vars(c))) for c in constraints]
    out, grew = [], True
    while grew:
        grew, keep = False, []
        for c, cv in rest:
            if cv & vs:
                out.append(c)
                vs |= cv
                grew = True
            else:
                keep.append((c, cv))
        rest = keep
    return out


import random as _random      # noqa: E402
_rng = _random.Random(11)


class GuessModel(object):
    """A concrete assignment that z3 evaluated to satisfy every constraint."""

    def __init__(self, vals, rest=None):
        self.vals, self.rest = vals, rest

    def eval(self, v, model_completion=True):
        if v.get_id() in self.vals:
            return self.vals[v.get_id()]
        if self.rest is not None:
            return self.rest.eval(v, model_completion=True)
        return zc(Fraction(_rng.randrange(2, 99)))


def guess(constraints, tries):
    allv = {}
    for c in constraints:
        allv.update(term_vars(c))
    free = [v for v in allv.values() if not v.decl().name().startswith('$')]
    hidden = len(free) != len(allv)
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 8:
            break
        sub = []
        for v in free:
            if v.sort() == z3.IntSort():
                sub.append((v, z3.IntVal(_rng.randrange(0, 4))))
            else:
                q = Fraction(_rng.choice([-1, 1]) * _rng.randrange(1, 30 + 400 * k), _rng.choice([1, 1, 1, 2, 3]))
                sub.append((v, zc(q)))
        left = []
        for c in constraints:
            r = z3.simplify(z3.substitute(c, *sub)) if sub else z3.simplify(c)
            if z3.is_false(r):
                left = None
                break
            if not z3.is_true(r):
                left.append(r)
        if left is None:
            continue
        vals = {v.get_id(): x for v, x in sub}
        if not left:
            return GuessModel(vals)
        if hidden:
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*left)
            if s.check() == z3.sat:
                return GuessModel(vals, s.model())
    return None


def components(constraints):
    """Split a conjunction into parts that share no variable."""
    rest = list(constraints)
    out = []
    while rest:
        part = slice_cone(rest, rest[:1])
        ids = set(id(c) for c in part)
        if not part:                       # ground constraint
            part, ids = rest[:1], {id(rest[0])}
        out.append(part)
        rest = [c for c in rest if id(c) not in ids]
    return out


class JoinModel(object):
    def __init__(self, parts):
        self.parts = parts

    def eval(self, v, model_completion=True):
        for vs, m in self.parts:
            if v.get_id() in vs:
                return m.eval(v, model_completion=True)
        return zc(Fraction(_rng.randrange(2, 99)))


def satisfiable(constraints, timeout, stats, kind='vacuity'):
    """Verdict on a whole path condition, component by component."""
    parts, res = [], 'sat'
    for comp in components(constraints):
        r, m = solve(comp, timeout, stats, kind)
        if r == 'unsat':
            return 'unsat', None
        if r == 'unknown':
            res = 'unknown'
        else:
            vs = set()
            for c in comp:
                vs |= set(term_vars(c))
            parts.append((vs, m))
    return res, JoinModel(parts)


def solve(constraints, timeout, stats, kind, goal=None):
    """The deciding step: z3's verdict on a conjunction (path condition sliced to the goal's cone of influence).
    A `sat` may also come from a concrete assignment that z3 evaluates to satisfy all constraints."""
    t0 = time.time()
    stats['queries'] += 1
    stats[kind] = stats.get(kind, 0) + 1
    if goal is not None:
        constraints = slice_cone(constraints, [goal]) + [goal]
    res, model = 'unknown', None
    if kind != 'obligation':
        model = guess(constraints, 60 if kind == 'vacuity' else 3)
        if model is not None:
            res = 'sat'
    if res == 'unknown' and goal is not None and len(constraints) > 1:
        # most obligations are polynomial identities that need nothing of the path condition
        s = z3.Then(z3.With('simplify', som=True), 'smt').solver()
        rg = identity_goal(goal)
        s.set('timeout', 500 if rg is None else 4000)
        s.add(goal if rg is None else rg)
        try:
            if s.check() == z3.unsat:
                res = 'unsat'
        except z3.Z3Exception:
            pass
    for how in ('default', 'guess', 'nra', 'som'):
        if res != 'unknown':
            break
        if how == 'guess':
            model = guess(constraints, 12)
            res = 'sat' if model is not None else res
            continue
        if how == 'default':
            s = z3.Solver()
            s.set('timeout', int(min(timeout, 4000)))
        elif how == 'nra':
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', int(timeout))
        else:
            s = z3.Then(z3.With('simplify', som=True), 'solve-eqs', z3.With('simplify', som=True), 'qfnra-nlsat').solver()
            s.set('timeout', int(timeout))
        try:
            s.add(*constraints)
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            res = 'unsat'
        elif r == z3.sat:
            res, model = 'sat', s.model()
    stats[res] += 1
    stats['solver_s'] += time.time() - t0
    return res, model


def explore(fn, stats, max_paths=4000, timeout=20000, deadline=None):
    """Run fn(ctx) along every feasible path.  Yields (ctx, outcome, value)."""
    todo = [[]]
    n = 0
    while todo:
        prefix = todo.pop()
        n += 1
        if n > max_paths or (deadline and time.time() > deadline):
            yield None, 'limit', "path budget of %d exhausted" % max_paths
            return
        c = Ctx(prefix, stats, timeout)
        old = _current[0]
        _current[0] = c
        try:
            try:
                v = fn(c)
                out = 'ok'
            except Abandon:
                v, out = None, 'abandon'
            except PathLimit as e:
                v, out = str(e), 'limit'
            except EngineLimit as e:
                v, out = "engine limit: %s" % e, 'limit'
            except RecursionError as e:
                v, out = e, 'raise'
            except Exception as e:
                v, out = e, 'raise'
        finally:
            _current[0] = old
        todo.extend(c.pending)
        yield c, out, v
