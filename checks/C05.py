"""C05: evaluating an expression string gives the value ordinary arithmetic assigns to it."""
import itertools
from fractions import Fraction
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin
from harness import Scenario

BOUNDS = ("phase spaces of 6 legs (two of them massive in half of the cases) with symbolic components and two symbolic internal masses; every expression "
          "tree of depth 2 over 10 kinds of operand (brackets, chains, invariants, masses, integers, rationals) and the operators + - * / ^, and a systematic "
          "family of depth-3 trees; 25 sizes of integers and rationals up to 96 digits; exponents up to 12; explicit, implicit and spaced multiplication, three notations for powers, LaTeX fractions, square roots")
OUTSIDE = "expressions deeper than the bound; exponents above 12; numerals of more than 96 digits"
ASSUMPTIONS = STD + ["division and implicit multiplication associate to the left, with the precedence of explicit multiplication (as in Python)"]


# --- expression trees: ('num', k) ('rat', p, q) ('atom', name) ('neg', t) (op, a, b) ('^', a, k)

def ev(t, env):
    k = t[0]
    if k == 'num':
        return Fraction(t[1])
    if k == 'rat':
        return Fraction(t[1], t[2])
    if k == 'atom':
        return env(t[1])
    if k == 'neg':
        return -1 * ev(t[1], env)
    if k == '^':
        b, n = ev(t[1], env), t[2]
        r = 1
        for _ in range(abs(n)):
            r = r * b
        return r if n >= 0 else 1 / (r if not isinstance(r, int) else Fraction(r))
    a, b = ev(t[1], env), ev(t[2], env)
    if k == '+':
        return a + b
    if k == '-':
        return a - b
    if k == '*':
        return a * b
    return a / b


PREC = {'+': 1, '-': 1, '*': 2, '/': 2, 'rat': 2, 'neg': 1.5, '^': 4, 'num': 9, 'atom': 9}
SUP = {'0': '⁰', '1': '¹', '2': '²', '3': '³'}


def show(t, mul='*', pw='^', sp=''):
    k = t[0]
    if k == 'num':
        return str(t[1])
    if k == 'rat':
        return '%d/%d' % (t[1], t[2])
    if k == 'atom':
        return t[1]

    def sub(x, need):
        s = show(x, mul, pw, sp)
        return s if PREC[x[0]] >= need else '(' + s + ')'
    if k == 'neg':
        return '-' + sub(t[1], 2)
    if k == '^':
        n = t[2]
        if pw == '²' and 0 <= n <= 3:
            return sub(t[1], 5) + SUP[str(n)]
        return sub(t[1], 5) + ('**' if pw == '**' else '^') + (str(n) if n >= 0 or pw != '^' else '%d' % n)
    if k in '+-':
        return sub(t[1], 1) + sp + k + sp + sub(t[2], 1.2 if k == '+' and t[2][0] != 'neg' else 2)
    a, b = sub(t[1], 2), sub(t[2], 3)
    if k == '/':
        return a + sp + '/' + sp + b
    m = mul
    if m == '' and not (b[0] in '⟨[(<' or (b[0] in 'strmμ' and a[-1] in '0123456789)]⟩') or (b[0].isdigit() and a[-1] == ')')):
        m = '*'
    if m == '' and b[0].isdigit() and a.endswith(')') and t[1][0] == 'atom':
        m = '*'
    return a + (sp if m else '') + m + (sp if m else '') + b


ATOMS = ["⟨1|2⟩", "[34]", "⟨1|2+3|4]", "s_12", "s34", "tr(1|2)", "mt2", "μ", "s_123", "⟨5|6⟩", "[1|(5+6)|2|3]", "m_5"]


def atom_values(oPs, K, masses):
    dn = lambda *i: O.madd(*[K.dn[x - 1] for x in i])     # noqa
    up = lambda *i: O.up_of_dn(dn(*i))                    # noqa
    v = {
        "⟨1|2⟩": lambda: K.a(1, 2), "[34]": lambda: K.s(3, 4), "⟨1|2+3|4]": lambda: K.chain(('a', 1), [[(1, 2), (1, 3)]], ('s', 4))[0][0],
        "s_12": lambda: O.det2(dn(1, 2)), "s34": lambda: O.det2(dn(3, 4)), "tr(1|2)": lambda: O.tr(O.mat(up(1), dn(2))), "mt2": lambda: masses['mt2'],
        "μ": lambda: masses['μ'], "s_123": lambda: O.det2(dn(1, 2, 3)), "⟨5|6⟩": lambda: K.a(5, 6), "m_5": lambda: O.det2(K.dn[4]),
        "[1|(5+6)|2|3]": lambda: K.chain(('s', 1), [[(1, 5), (1, 6)], [(1, 2)]], ('s', 3))[0][0], "Δ_12|34|56": lambda: _gram(dn),
        "mt": lambda: masses['mt'], "m12": lambda: masses['m12'], "mH2": lambda: masses['mH2'], "M": lambda: masses['M'],
    }
    cache = {}

    def env(n):
        if n not in cache:
            cache[n] = v[n]()
        return cache[n]
    return env


def _gram(dn):
    a, b = dn(1, 2), dn(3, 4)
    return -(O.dot_dn(a, a) * O.dot_dn(b, b) - O.dot_dn(a, b) ** 2)


def run(cases, massive=(), masses=('mt2', 'μ')):
    """cases: list of (string, tree)"""
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 6, massive)
        ms = {}
        oPs.internal_masses = set()
        for m in masses:
            ms[m] = H.var(m)
            setattr(oPs, m, ms[m])
        env = atom_values(oPs, K, ms)
        for s, t in cases:
            H.eq(s, oPs.compute(s), ev(t, env))
    return body


def A(n):
    return ('atom', n)


def leaf_pool(massive):
    at = [a for a in ATOMS if not (massive and a in ("⟨5|6⟩",)) and not (not massive and a == "m_5")]
    return [A(a) for a in at] + [('num', 3), ('rat', 3, 4)]


def styles(t, full):
    out = [show(t), show(t, mul='', pw='²'), show(t, mul='', pw='**', sp=' ')]
    if full:
        out += [show(t, mul='', pw='^'), show(t, mul='*', pw='**'), show(t, sp=' ')]
    return list(dict.fromkeys(out))


def depth2(pool):
    out = []
    for a, b in itertools.product(pool, repeat=2):
        for op in '+-*/':
            out.append((op, a, b))
    for a in pool:
        for k in (2, 3, -1, -2):
            out.append(('^', a, k))
        out.append(('neg', a))
    return out


def depth3(pool, stride, off):
    """(a op b) op2 c and a op2 (b op c), with powers sprinkled in"""
    ops = list(itertools.product('+-*/', repeat=2))
    out, k = [], 0
    n = len(pool)
    for (o1, o2) in ops:
        for i in range(n):
            for j in range(n):
                k += 1
                if k % stride != off:
                    continue
                a, b, c = pool[i], pool[j], pool[(i * 3 + j * 5 + 1) % n]
                out.append((o2, (o1, a, b), c))
                out.append((o2, a, (o1, b, c)))
                out.append((o2, ('^', a, 2), (o1, b, ('neg', c) if o1 == '*' else c)) if o1 != '*' else (o2, ('^', a, 2), ('*', b, ('^', c, 2))))
                out.append((o1, ('^', (o2, a, b), 2), c))
                out.append(('-', ('neg', (o1, a, b)), (o2, c, a)))
    return out


NUMERIC = [
    ("3/2^2", ('/', ('num', 3), ('^', ('num', 2), 2))),
    ("s_12/3/2", ('/', ('/', A('s_12'), ('num', 3)), ('num', 2))),
    ("s_12^2/3", ('/', ('^', A('s_12'), 2), ('num', 3))),
    ("s_12^-1/3", ('/', ('^', A('s_12'), -1), ('num', 3))),
    ("1/2/3s_12", ('*', ('/', ('/', ('num', 1), ('num', 2)), ('num', 3)), A('s_12'))),
    ("2^2/3", ('/', ('^', ('num', 2), 2), ('num', 3))),
    ("2^-1s_12", ('*', ('^', ('num', 2), -1), A('s_12'))),
    ("-1/3", ('neg', ('rat', 1, 3))),
    ("12/127mt2", ('*', ('rat', 12, 127), A('mt2'))),
    ("96/127[34]⟨1|2⟩", ('*', ('*', ('rat', 96, 127), A('[34]')), A('⟨1|2⟩'))),
    ("(3/4)^2s_12", ('*', ('^', ('rat', 3, 4), 2), A('s_12'))),
    ("10/4*2/5s34", ('*', ('/', ('*', ('/', ('num', 10), ('num', 4)), ('num', 2)), ('num', 5)), A('s34'))),
    ("1-2-3s_12", ('-', ('-', ('num', 1), ('num', 2)), ('*', ('num', 3), A('s_12')))),
    ("-s_12^2", ('neg', ('^', A('s_12'), 2))),
    ("+s_12-2/3", ('-', A('s_12'), ('rat', 2, 3))),
    ("(s_12+1/2)/(s34-1/3)", ('/', ('+', A('s_12'), ('rat', 1, 2)), ('-', A('s34'), ('rat', 1, 3)))),
    ("2s_12s34mt2(8mt2-s_123-2s34)[34]^2/3", ('/', ('*', ('*', ('*', ('*', ('*', ('num', 2), A('s_12')), A('s34')), A('mt2')), ('-', ('-', ('*', ('num', 8), A('mt2')), A('s_123')), ('*', ('num', 2), A('s34')))), ('^', A('[34]'), 2)), ('num', 3))),
    (r"\frac{s_12+mt2}{s34}", ('/', ('+', A('s_12'), A('mt2')), A('s34'))),

    ("s_12²⟨1|2⟩³", ('*', ('^', A('s_12'), 2), ('^', A('⟨1|2⟩'), 3))),
    ("<12>[34]−s_12", ('-', ('*', A('⟨1|2⟩'), A('[34]')), A('s_12'))),
    ("<1|2>-[3|4]", ('-', A('⟨1|2⟩'), A('[34]'))),
    ("(s_12)(s34)/(mt2)", ('/', ('*', A('s_12'), A('s34')), A('mt2'))),
    ("s_12/(s34mt2)", ('/', A('s_12'), ('*', A('s34'), A('mt2')))),
    ("s_{12}+s_{1|2}0" if False else "s_12+0", A('s_12')),
    ("s_12^4", ('^', A('s_12'), 4)), ("mt2^5s34", ('*', ('^', A('mt2'), 5), A('s34'))), ("mt2^10/s_12", ('/', ('^', A('mt2'), 10), A('s_12'))), ("2mt2^12", ('*', ('num', 2), ('^', A('mt2'), 12))),
    ("μ⁴", ('^', A('μ'), 4)), ("mt2⁷⟨1|2⟩⁵", ('*', ('^', A('mt2'), 7), ('^', A('⟨1|2⟩'), 5))), ("mt2¹²", ('^', A('mt2'), 12)), ("mt2**11", ('^', A('mt2'), 11)), ("[34]^-5", ('^', A('[34]'), -5)),
    ("10mt2^2", ('*', ('num', 10), ('^', A('mt2'), 2))), ("(s_12+mt2)^4", ('^', ('+', A('s_12'), A('mt2')), 4)), ("mt2^0", ('^', A('mt2'), 0)), ("2^10", ('^', ('num', 2), 10)),
]
# every size of number: the value is exact
NUMERALS = [0, 1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 1000, 4096, 65537, 999999, 2 ** 31 - 2, 2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, 10 ** 17 + 3, 2 ** 63 - 1, 2 ** 64 + 1, 10 ** 20 + 7, 10 ** 40 + 9, 3 ** 200]


def numerals():
    out = []
    for k, n in enumerate(NUMERALS):
        d = NUMERALS[-(k + 1)] or 7
        out += [("%ds_12" % n, ('*', ('num', n), A('s_12'))), ("s_12-%d" % n, ('-', A('s_12'), ('num', n))), ("mt2+%d/%d" % (n, d), ('+', A('mt2'), ('rat', n, d))), ("%d/%d[34]" % (n, d), ('*', ('rat', n, d), A('[34]'))),
                ("(%d*mt2)/%d" % (n, d), ('/', ('*', ('num', n), A('mt2')), ('num', d))), ("%d*%d" % (n, d), ('*', ('num', n), ('num', d))), ("%d⟨1|2⟩-%d/3s_12" % (n, d), ('-', ('*', ('num', n), A('⟨1|2⟩')), ('*', ('rat', d, 3), A('s_12'))))]
    return out

MASSNAMES = [
    ("2m12", ('*', ('num', 2), A('m12'))), ("m12", A('m12')), ("m12^2-s_12", ('-', ('^', A('m12'), 2), A('s_12'))), ("mt+mt2", ('+', A('mt'), A('mt2'))),
    ("mt^2/mt2", ('/', ('^', A('mt'), 2), A('mt2'))), ("s_12mH2-3M", ('-', ('*', A('s_12'), A('mH2')), ('*', ('num', 3), A('M')))), ("mtmt2" if False else "mt*mt2", ('*', A('mt'), A('mt2'))),
    ("μ^2", ('^', A('μ'), 2)), ("2μ²+M", ('+', ('*', ('num', 2), ('^', A('μ'), 2)), A('M'))), ("mH2⟨1|2⟩", ('*', A('mH2'), A('⟨1|2⟩'))), ("(mt2)/(s_12-mt2)", ('/', A('mt2'), ('-', A('s_12'), A('mt2')))),
]

GRAM = [("Δ_12|34|56", A('Δ_12|34|56')), ("2Δ_12|34|56", ('*', ('num', 2), A('Δ_12|34|56'))), ("s_12/Δ_12|34|56", ('/', A('s_12'), A('Δ_12|34|56'))), ("(mt2)/(Δ_12|34|56)", ('/', A('mt2'), A('Δ_12|34|56'))),
        ("s_12Δ_12|34|56", ('*', A('s_12'), A('Δ_12|34|56')))]


def roots(which):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 6, (1, 2, 3, 4, 5, 6))
        c = H.var('y')
        H.assume_nonzero(c)
        # make s_12 a square so that the root exists in every field: det(P1+P2) = (2c)^2/4... via P2 := c*1 - P1 with c symbolic
        import lips
        dn = O.madd([[c, 0], [0, c]], O.mscale(-1, K.dn[0]))
        oPs[2].r2_sp_b = obj(dn)
        s12 = c * c
        v = oPs.compute({'plain': "sqrt(s_12)", 'times': "1/8s_3sqrt(s_12)", 'sum': "sqrt(s_12)+s_3", 'inside': "sqrt(4s_12)*s_3"}[which])
        s3 = O.det2(K.dn[2])
        if which == 'plain':
            H.eq('sqrt(s_12)^2', v * v, s12)
        elif which == 'times':
            H.eq('(1/8 s_3 sqrt(s_12))^2', v * v * 64, s3 * s3 * s12)
        elif which == 'sum':
            H.eq('(sqrt(s_12)+s_3 - s_3)^2', (v - s3) * (v - s3), s12)
        else:
            H.eq('(sqrt(4 s_12)*s_3)^2', v * v, 4 * s12 * s3 * s3)
    return body


EXPRS = ["⟨1|2⟩", "[34]", "s_12", "s_34", "2⟨1|2⟩[34]-s_34", "⟨1|2+3|4]", "s_123mt2", "mt2^2/s_12", "tr(1|2)", "tr(1+2|3)", "[1|(5+6)|2|3]", "m_5+mt2", "μ", "mt2"]


def ref(x, K, ms):
    dn = lambda *i: O.madd(*[K.dn[j - 1] for j in i])     # noqa
    up = lambda *i: O.up_of_dn(dn(*i))                    # noqa
    c = lambda *a: O.Kin.chain(K, *a)[0][0]               # noqa
    return {
        "⟨1|2⟩": lambda: K.a(1, 2), "[34]": lambda: K.s(3, 4), "s_12": lambda: O.det2(dn(1, 2)), "s_34": lambda: O.det2(dn(3, 4)),
        "2⟨1|2⟩[34]-s_34": lambda: 2 * K.a(1, 2) * K.s(3, 4) - O.det2(dn(3, 4)), "⟨1|2+3|4]": lambda: c(('a', 1), [[(1, 2), (1, 3)]], ('s', 4)),
        "s_123mt2": lambda: O.det2(dn(1, 2, 3)) * ms['mt2'], "mt2^2/s_12": lambda: ms['mt2'] * ms['mt2'] / O.det2(dn(1, 2)),
        "tr(1|2)": lambda: O.tr(O.mat(up(1), dn(2))), "tr(1+2|3)": lambda: O.tr(O.mat(up(1, 2), dn(3))),
        "[1|(5+6)|2|3]": lambda: c(('s', 1), [[(1, 5), (1, 6)], [(1, 2)]], ('s', 3)),
        "m_5+mt2": lambda: O.det2(dn(5)) + ms['mt2'], "μ": lambda: ms['μ'], "mt2": lambda: ms['mt2']}[x]()


def current(H, oPs, n):
    """oracle kinematics of the point as it is now, read from the spinors"""
    r = [[p.r_sp_d[0, 0], p.r_sp_d[1, 0]] for p in oPs]
    l = [[p.l_sp_d[0, 0], p.l_sp_d[0, 1]] for p in oPs]
    return O.Kin(r, l, [L(p.r2_sp_b) for p in oPs])


def history(change, first, again):
    """evaluate `first`, change the point, evaluate `again`: values are those of the point as it is at each moment"""
    def body(H):
        import lips
        H.field('finite field')
        oPs, K = kin(H, 6)
        ms = {}
        oPs.internal_masses = set()
        for m in ('mt2', 'μ'):
            ms[m] = H.var(m)
            setattr(oPs, m, ms[m])

        def evaluate(xs, lab, K, how):
            for x in xs:
                w = ref(x, K, ms)
                if w is None:
                    continue
                H.eq('%s: %s (%s)' % (lab, x, how), {'compute': oPs.compute, 'call': oPs, 'eval': getattr(oPs, '_eval', oPs)}[how](x), w)
        evaluate(first, 'before', K, 'compute')
        evaluate(first, 'before', K, 'call')
        r, l = list(K.r), list(K.l)
        target = oPs
        if change == 'internal mass':
            for m in ms:
                ms[m] = H.var(m + 'new')
                setattr(oPs, m, ms[m])
        elif change == 'internal mass through the dictionary of one name':
            ms['mt2'] = H.var('mt2new')
            setattr(oPs, 'mt2', ms['mt2'])
        elif change in ('r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u', 'r2_sp', 'r2_sp_b', 'four_mom', 'replaced', 'by key', 'swapped'):
            a, b = spinor_pair(H, 'new')
            if change == 'r_sp_d':
                oPs[2].r_sp_d = obj(O.col(a))
                r[1] = a
            elif change == 'r_sp_u':
                oPs[2].r_sp_u = obj([O.ru(a)])
                r[1] = a
            elif change == 'l_sp_d':
                oPs[3].l_sp_d = obj([b])
                l[2] = b
            elif change == 'l_sp_u':
                oPs[3].l_sp_u = obj(O.col(O.lu(b)))
                l[2] = b
            elif change == 'replaced':
                oPs[1] = H.particle(a, b)
                r[0], l[0] = a, b
            elif change == 'by key':
                oPs["|2⟩"] = obj(O.col(a))
                r[1] = a
            elif change == 'swapped':
                oPs[1], oPs[3] = oPs[3], oPs[1]
                r[0], r[2], l[0], l[2] = r[2], r[0], l[2], l[0]
        elif change == 'angles for squares':
            oPs.angles_for_squares()
        elif change == 'momentum conservation':
            oPs.fix_mom_cons(5, 6)
        elif change == 'image':
            target = oPs.image(("231456", False))
        if change in ('angles for squares', 'momentum conservation', 'image'):
            oPs = target
            K2 = current(H, oPs, 6)
        else:
            K2 = O.Kin(r, l, [O.Pdn(a, b) for a, b in zip(r, l)])
        for how in ('compute', 'call', 'eval'):
            evaluate(again, 'after: ' + change, K2, how)
    return body


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def scenarios(tier):
    out = []
    for massive, lab in (((), 'massless'), ((2, 5), 'mixed')):
        pool = leaf_pool(massive)
        if massive:
            pool = [p for p in pool if p[1] not in ("⟨1|2⟩",)]
        two = [(s, t) for t in depth2(pool) for s in styles(t, tier != 'quick')]
        two = [x for x in two if not _bad(x)]
        for k, c in enumerate(chunks(two, 60)):
            out.append(Scenario('depth2:%s:%d' % (lab, k), run(c, massive)))
        three = [(s, t) for t in depth3(pool, 7 if tier == 'quick' else 2, 0) for s in styles(t, False)]
        three = [x for x in three if not _bad(x)]
        for k, c in enumerate(chunks(three, 30)):
            out.append(Scenario('depth3:%s:%d' % (lab, k), run(c, massive)))
    for s, t in NUMERIC:
        out.append(Scenario('numeric:%s' % s, run([(s, t)])))
    for k, c in enumerate(chunks(numerals(), 35)):
        out.append(Scenario('numerals:%d' % k, run(c)))
    for s, t in MASSNAMES:
        out.append(Scenario('internal mass:%s' % s, run([(s, t)], (), ('mt', 'mt2', 'm12', 'mH2', 'M', 'μ'))))
    for s, t in GRAM:
        out.append(Scenario('gram:%s' % s, run([(s, t)], (1, 2, 3, 4, 5, 6))))
    for ch in ('internal mass', 'internal mass through the dictionary of one name', 'r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u', 'replaced', 'by key', 'swapped',
               'angles for squares', 'momentum conservation'):
        for k, xs in enumerate(chunks(EXPRS, 5)):
            out.append(Scenario('history:%s:%d' % (ch, k), history(ch, xs, xs)))
    for w in ('plain', 'times', 'sum', 'inside'):
        out.append(Scenario('sqrt:%s' % w, roots(w)))
    return out


def _bad(x):
    """division by an expression that is identically zero is no expression"""
    s, t = x

    def zero(t):
        return t[0] == '-' and t[1] == t[2]

    def walk(t):
        if t[0] in ('num', 'rat', 'atom'):
            return False
        if t[0] == '/' and zero(t[2]):
            return True
        return any(walk(c) for c in t[1:] if isinstance(c, tuple))
    return walk(t)
