"""C08: single limits reach the requested value, conserving momentum."""
import itertools
import oracle as O
from checks.common import *   # noqa
from harness import Scenario

BOUNDS = ("massless points of 4 to 7 legs with symbolic spinors (conserving momentum) and a symbolic target value; spinor products of every ordered pair, "
          "open chains with one and two slashed sums, three- and four-particle masses (both modes), the square-root families (closed chains, triangle Gram determinants) "
          "with the root symbolic, traces with gamma five at 6 legs, differences of five-brackets; with and without restoring momentum conservation")
OUTSIDE = "for Ω, Π and tr5 at five legs (constructions with hard-coded polynomials of several hundred terms) all legs but one are fixed to integers; traces of sums at 7 legs that leave fewer than two spare legs (lips refuses them); points where the construction divides by zero; field elements without the required square root"
ASSUMPTIONS = STD + ["a square root is any number whose square is the argument; which of the two roots is taken does not matter for the claim"]


def now_kin(oPs):
    return O.Kin([[p.r_sp_d[0, 0], p.r_sp_d[1, 0]] for p in list.__iter__(oPs)], [[p.l_sp_d[0, 0], p.l_sp_d[0, 1]] for p in list.__iter__(oPs)])


def legs(inv):
    return [int(c) for c in inv.replace('tr5', '') if c.isdigit()]


def single(n, inv, mode=1, fix=True, field='finite field', sym=None):
    def body(H):
        H.field(field)
        oPs, _ = H.cons(n, sym) if fix else H.raw(n)
        X = H.var('X')
        kw = {}
        if mode != 1:
            kw['mode'] = mode
        if not fix:
            kw['fix_mom'] = False
        oPs._set(inv, X, **kw)
        H.eq('%s has the requested value' % inv, O.invariant(now_kin(oPs), inv), X)
        if fix:
            conserved(H, inv, oPs)
        for i, p in enumerate(list.__iter__(oPs), 1):
            consistent(H, 'leg %d' % i, p)
    return body


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def add(n, inv, mode=1, fix=True, sym=None, **kw):
        out.append(Scenario('%d:%s:mode%d%s' % (n, inv, mode, '' if fix else ':no conservation'), single(n, inv, mode, fix, sym=sym), **kw))
    for n in ((4, 5, 6) if q else (4, 5, 6, 7)):
        for i, j in itertools.permutations(range(1, n + 1), 2):
            if q and n == 6 and (i + j) % 3:
                continue
            add(n, '⟨%d|%d⟩' % (i, j))
            add(n, '[%d|%d]' % (i, j))
            if n == 4:
                add(n, '⟨%d|%d⟩' % (i, j), fix=False)
                add(n, '[%d|%d]' % (i, j), fix=False)
    for n in ((5, 6) if q else (5, 6, 7)):
        for k, (i, (j, l), m) in enumerate((i, jl, m) for i in range(1, n + 1) for jl in itertools.combinations(range(1, n + 1), 2) if i not in jl
                                           for m in range(1, n + 1) if m not in jl):
            for mode in (1, 2):
                if q and (k + mode) % (2 if n == 5 else 12):
                    continue
                if not q and n == 7 and k % 12:
                    continue
                add(n, '⟨%d|(%d+%d)|%d]' % (i, j, l, m), mode, sym=[1, 2, 3] if (j, l) == (n - 1, n) else None)
                if k % 3 == 0:
                    add(n, '[%d|(%d+%d)|%d⟩' % (i, j, l, m), mode, sym=[1, 2, 3] if (j, l) == (n - 1, n) else None)
                if n == 5 and k % 4 == 0:
                    add(n, '⟨%d|(%d+%d)|%d]' % (i, j, l, m), mode, fix=False)
    for inv in ('s_123', 's_345', 's_135', 's_246', 's_612'):
        for mode in (1, 2):
            add(6, inv, mode)
    for inv in ('s_123', 's_247', 's_1234'):
        for mode in (1, 2):
            add(7, inv, mode)
    some = lambda inv, k: sorted(set(list(legs(inv))[:k]))      # noqa   legs left symbolic in the heavy families
    for inv in ('⟨1|(2+3)|(2+5)|1⟩', '[1|(2+3)|(2+5)|1]', '⟨5|(1+2)|(1+4)|5⟩', '[2|(1+3)|(1+5)|2]'):
        for mode in (1, 2):
            add(5, inv, mode, sym=some(inv, 1 if q else 2))
    for inv in ('⟨1|(2+3)|(2+6)|1⟩', '[6|(1+5)|(4+5)|6]', '⟨1|(2+6)|(2+4)|3⟩', '[1|(5+6)|(4+5)|3]', '⟨1|(2+3)|(4+5)|1⟩', '[2|(1+3)|(5+6)|2]'):
        for mode in (1, 2):
            add(6, inv, mode, sym=some(inv, 1 if q else 2))
    for inv in ('⟨1|(2+3)|(4+5)|(6+7)|1]', '⟨7|(5+6)|(1+2)|(3+4)|7]', '⟨1|(2+3)|(6+7)|1⟩'):
        add(7, inv, sym=some(inv, 2))
    for inv in ('Δ_135', 'Δ_246', 'Δ_12|34|56', 'Δ_14|25|36', 'Δ_35|12|46'):
        for mode in (1, 2, 3, 4):
            leg = O.corners_of(6, [int(c) for c in inv[2:]])[0][(mode - 1) // 2] if '|' not in inv else int(inv[2 + (mode - 1) // 2])
            add(6, inv, mode, sym=[] if q else [leg], budget=300)
    for inv in ('Ω_135', 'Ω_624', 'Π_135', 'Π_462'):
        add(6, inv, sym=some(inv, 1))
    for inv in ('tr5_1234', 'tr5_1235', 'tr5_2456', 'tr5_6143'):
        add(6, inv, sym=some(inv, 2 if q else 3))
    for inv in ('tr5_1234', 'tr5_2134', 'tr5_1235', 'tr5_5234', 'tr5_3514', 'tr5(1|2|3-5|4)', 'tr5(1-2|3|4|5)', 'tr5(2|1+3|4|1)'):
        add(5, inv, sym=[1] if inv == 'tr5_1234' or not q else [])
    for inv in ('tr5(1+2|3|4|5)', 'tr5(1|2+3|4|5)', 'tr5(1|2|3+4|5)', 'tr5(1|3-2|4|5)', 'tr5(2+3|1|2+4|5)'):
        add(7, inv, sym=some(inv, 2 if q else 3))
    for inv in ('(⟨2|3|5+6|1|2]-⟨3|4|5+6|1|3])', '(⟨3|2|5+6|4|3]-⟨2|1|5+6|4|2])', '(⟨1|2|4+5|3|1]-⟨2|6|4+5|3|2])'):
        add(6, inv, sym=some(inv, 2))
    return out
