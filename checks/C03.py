"""C03: brackets, spinors and spinor chains evaluate to the contraction their notation denotes."""
import itertools
import oracle as O
from checks.common import *   # noqa
from harness import Scenario

BOUNDS = ("phase spaces of 4 to 12 legs with symbolic components; two-particle brackets over every ordered pair of legs; chains with 1 to 4 middle "
          "entries (thorough: 5), each entry a leg, a signed sum of 2 or 3 legs, with or without parentheses; all four start/end combinations of closed "
          "chains (the two non-contractible ones must be refused), chains open on the left, on the right and on both sides; one- and two-digit "
          "indices; ASCII, unicode and bold notations; middle legs massless (spinor products) or massive (general rank-two spinor); "
          "spin-index notation (i_, i^) at either end or both, with 1 to 4 middle entries")
OUTSIDE = "chains longer than the bound; entries of more than 4 terms; parenthesised sums in open chains with several entries (refused with a SyntaxError by the code); chains with two-digit labels inside larger expressions (refused with an exception by the code)"
ASSUMPTIONS = STD


def kin(H, n, massive=()):
    """n legs; those in `massive` have a general symbolic rank-two spinor."""
    import lips
    ps, r, l, dn = [], [], [], []
    for i in range(1, n + 1):
        if i in massive:
            m = [[H.var('P%d%d%d' % (i, a, b)) for b in range(2)] for a in range(2)]
            H.assume_nonzero(m[0][0])
            ps.append(lips.Particle(obj(O.up_of_dn(m)), field=H.F))
            r.append(None), l.append(None), dn.append(m)
        else:
            a, b = spinor_pair(H, 'p%d' % i)
            ps.append(H.particle(a, b))
            r.append(a), l.append(b), dn.append(O.Pdn(a, b))
    oPs = lips.Particles(ps, field=H.F, fix_mom_cons=False)
    return oPs, O.Kin(r, l, dn)


def brackets(n):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n)
        for i in range(1, n + 1):
            H.eq('<%d|' % i, oPs.compute("⟨%d|" % i), obj([O.ru(K.r[i - 1])]))
            H.eq('|%d>' % i, oPs.compute("|%d⟩" % i), obj(O.col(K.r[i - 1])))
            H.eq('[%d|' % i, oPs.compute("[%d|" % i), obj([K.l[i - 1]]))
            H.eq('|%d]' % i, oPs.compute("|%d]" % i), obj(O.col(O.lu(K.l[i - 1]))))
            for s, w in (("⟨%d|", obj([O.ru(K.r[i - 1])])), ("|%d⟩", obj(O.col(K.r[i - 1]))), ("[%d|", obj([K.l[i - 1]])), ("|%d]", obj(O.col(O.lu(K.l[i - 1]))))):
                H.eq('item ' + s % i, oPs[s % i], w)
            for j in range(1, n + 1):
                a, s = K.a(i, j), K.s(i, j)
                H.eq('<%d|%d>' % (i, j), oPs.compute("⟨%d|%d⟩" % (i, j)), a)
                H.eq('ascii <%d|%d>' % (i, j), oPs.compute("<%d|%d>" % (i, j)), a)
                H.eq('[%d|%d]' % (i, j), oPs.compute("[%d|%d]" % (i, j)), s)
                H.eq('in an expression: 2*<%d|%d>' % (i, j), oPs.compute("2⟨%d|%d⟩" % (i, j)), 2 * a)
                H.eq('in an expression: -3*[%d|%d]' % (i, j), oPs.compute("-3[%d|%d]" % (i, j)), -3 * s)
                H.eq('call', oPs("⟨%d|%d⟩" % (i, j)), a)
                if i < 10 and j < 10:
                    H.eq('<%d%d>' % (i, j), oPs.compute("⟨%d%d⟩" % (i, j)), a)
                    H.eq('ascii <%d%d>' % (i, j), oPs.compute("<%d%d>" % (i, j)), a)
                    H.eq('[%d%d]' % (i, j), oPs.compute("[%d%d]" % (i, j)), s)
    return body


def bold(s):
    t = {'0': '𝟎', '1': '𝟏', '2': '𝟐', '3': '𝟑', '4': '𝟒', '5': '𝟓', '6': '𝟔', '7': '𝟕', '8': '𝟖', '9': '𝟗'}
    return ''.join(t.get(c, c) for c in s)


SHAPES = {'x': [1], 'x+y': [1, 1], 'x-y': [1, -1], '(x+y)': [1, 1], '(x)': [1], 'x+y+z': [1, 1, 1], '(x-y)': [1, -1], 'x-y+z': [1, -1, 1], '(x-y-z)': [1, -1, -1], 'x+y-z+w': [1, 1, -1, 1]}


def render(shape, legs):
    it = iter(legs)
    return ''.join(str(next(it)) if c in 'xyzw' else c for c in shape)


def closed(shapes, n, massive, variants):
    """variants: index assignments: (start, end, [legs per middle entry])"""
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n, massive)
        for st, en, legs in variants:
            mid = '|'.join(render(s, lg) for s, lg in zip(shapes, legs))
            terms = [list(zip(SHAPES[s], lg)) for s, lg in zip(shapes, legs)]
            odd = len(shapes) % 2 == 1
            for o, kind in (('⟨', 'a'), ('[', 's')):
                close_ok = {('a', True): ']', ('a', False): '⟩', ('s', True): '⟩', ('s', False): ']'}[(kind, odd)]
                ek = 'a' if close_ok == '⟩' else 's'
                want = O.Kin.chain(K, (kind, st), terms, (ek, en))
                s = "%s%d|%s|%d%s" % (o, st, mid, en, close_ok)
                H.eq(s, oPs.compute(s), want[0][0])
                H.eq('ascii ' + s, oPs.compute(s.replace('⟨', '<').replace('⟩', '>')), want[0][0])
                H.eq('bold ' + s, oPs.compute(bold(s)), want[0][0])
                if n < 10:
                    H.eq('in an expression: 3*' + s, oPs.compute("3" + s), 3 * want[0][0])
                bad = "%s%d|%s|%d%s" % (o, st, mid, en, ']' if close_ok == '⟩' else '⟩')
                try:
                    v = oPs.compute(bad)
                except Exception:
                    continue
                H.fail('non-contractible chain ' + bad, 'evaluated to %r instead of being refused' % (type(v).__name__,))
    return body


def opened(shapes, n, massive, variants):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n, massive)
        for st, en, legs in variants:
            mid = '|'.join(render(s, lg) for s, lg in zip(shapes, legs))
            terms = [list(zip(SHAPES[s], lg)) for s, lg in zip(shapes, legs)]
            odd = len(shapes) % 2 == 1
            for o, kind in (('⟨', 'a'), ('[', 's')):
                s = "%s%d|%s|" % (o, st, mid)
                H.eq(s, oPs.compute(s), obj(K.chain((kind, st), terms, None)))
            for c, ek in (('⟩', 'a'), (']', 's')):
                s = "|%s|%d%s" % (mid, en, c)
                first = ('odn' if (ek == 's') == odd else 'oup')
                H.eq(s, oPs.compute(s), obj(K.chain((first, None), terms, (ek, en))))
            s = "|%s|" % mid
            H.eq(s, oPs.compute(s), obj(K.chain(('odn', None), terms, None)))
    return body


def products():
    """outer products and sums of open objects, as the expression parser documents them"""
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 6)
        up, dn = lambda i: O.up_of_dn(K.dn[i - 1]), lambda i: K.dn[i - 1]
        for i, j in ((1, 2), (4, 3), (5, 5)):
            H.eq('|i>[j|', oPs.compute("|%d⟩[%d|" % (i, j)), obj(O.mat(O.col(K.r[i - 1]), [K.l[j - 1]])))
            H.eq('|i]<j|', oPs.compute("|%d]⟨%d|" % (i, j)), obj(O.mat(O.col(O.lu(K.l[i - 1])), [O.ru(K.r[j - 1])])))
            H.eq('|i><j|', oPs.compute("|%d⟩⟨%d|" % (i, j)), obj(O.mat(O.col(K.r[i - 1]), [O.ru(K.r[j - 1])])))
        H.eq('|1>[1| is P', oPs.compute("|1⟩[1|"), obj(dn(1)))
        H.eq('|1]<1| is Pbar', oPs.compute("|1]⟨1|"), obj(up(1)))
        H.eq('sum of chains', oPs.compute("⟨1|2+3|4]-⟨1|2|4]"), O.mat(O.mat([O.ru(K.r[0])], dn(3)), O.col(O.lu(K.l[3])))[0][0])
        H.eq('open combination', oPs.compute("|4+5|6+3|1]-|6+3|4+5|1]"),
             obj(O.madd(K.chain(('oup', None), [[(1, 4), (1, 5)], [(1, 6), (1, 3)]], ('s', 1)), O.mscale(-1, K.chain(('oup', None), [[(1, 6), (1, 3)], [(1, 4), (1, 5)]], ('s', 1))))))
        H.eq('contraction with @', oPs.compute("⟨1|@(|2|+|3|)@|4]"), O.mat(O.mat([O.ru(K.r[0])], O.madd(dn(2), dn(3))), O.col(O.lu(K.l[3])))[0][0])
        # spin indices: |i_> stands for the first component of (|i>,|i+1>).(-eps) = |i+1>, [i^| for -[i+1|, |i^] for -|i+1]
        w = -O.mat(O.mat([K.l[3]], O.madd(up(1), up(2))), O.col(K.r[5]))[0][0]
        H.eq('[3^|1+2|5_>', oPs.compute("[3^|1+2|5_⟩"), w)
        H.eq('<5_|1+2|3^]', oPs.compute("⟨5_|1+2|3^]"), -O.mat(O.mat([O.ru(K.r[5])], O.madd(dn(1), dn(2))), O.col(O.lu(K.l[3])))[0][0])
    return body


def spin_indices(shapes, massive):
    """|i_> stands for |i+1>, <i_| for <i+1|, [i^| for -[i+1|, |i^] for -|i+1] (legs i, i+1: the two massless halves of a massive one)."""
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 8, massive)
        odd = len(shapes) % 2 == 1
        ends = {'a': [("%d", 0, 1), ("%d_", 1, 1), ("%dd", 1, 1)], 's': [("%d", 0, 1), ("%d^", 1, -1), ("%du", 1, -1)]}
        legs = [((1, 2, 3, 6)[i % 3:] + (1, 2, 3))[:len(SHAPES[s])] for i, s in enumerate(shapes)]
        mid = '|'.join(render(s, lg) for s, lg in zip(shapes, legs))
        terms = [list(zip(SHAPES[s], lg)) for s, lg in zip(shapes, legs)]
        for kind in 'as':
            ek = {('a', True): 's', ('a', False): 'a', ('s', True): 'a', ('s', False): 's'}[(kind, odd)]
            for f, sh, sg in ends[kind]:
                for g, sh2, sg2 in ends[ek]:
                    for st, en in ((4, 7), (7, 4)):
                        if sh + sh2 == 0:
                            continue
                        s = ('⟨' if kind == 'a' else '[') + f % st + '|' + mid + '|' + g % en + ('⟩' if ek == 'a' else ']')
                        w = K.chain((kind, st + sh), terms, (ek, en + sh2))[0][0]
                        H.eq(s, oPs.compute(s), sg * sg2 * w)
    return body


def variants(shapes, n, digits2=False):
    """A few index assignments per shape, covering repeated legs, ascending, descending and two-digit labels."""
    k = [len(SHAPES[s]) for s in shapes]
    out = []
    base = [(2, 3, 4, 5), (4, 3, 5, 2), (5, 2, 4, 3), (3, 5, 2, 4), (4, 5, 3, 2)]
    if not digits2:
        out.append((1, 6, [base[i % 5][:k[i]] for i in range(len(k))]))
        out.append((6, 1, [base[(i + 2) % 5][:k[i]] for i in range(len(k))]))
    else:
        b2 = [(10, 3, 12, 5), (11, 10, 2, 4), (4, 12, 11, 3), (12, 11, 3, 2), (2, 10, 11, 12)]
        out.append((1, 12, [b2[i % 5][:k[i]] for i in range(len(k))]))
        out.append((11, 10, [b2[(i + 1) % 5][:k[i]] for i in range(len(k))]))
    return out


def scenarios(tier):
    out = []
    for n in ((4, 5, 12) if tier == 'quick' else (4, 5, 6, 8, 12)):
        out.append(Scenario('brackets:%d' % n, brackets(n)))
    names = list(SHAPES)
    combos = [(s,) for s in names]
    combos += [(a, b) for a in names for b in ('x', 'x+y', '(x-y)')]
    combos += [(a, b, c) for a, b, c in itertools.product(('x', '(x+y)', 'x-y'), repeat=3)]
    combos += [('x', 'x+y', 'x', '(x-y)'), ('x+y', 'x', 'x-y', 'x'), ('x', 'x', 'x', 'x'), ('(x+y)', '(x+y)', '(x+y)', '(x+y)')]
    if tier != 'quick':
        combos += list(itertools.product(('x', 'x+y'), repeat=4)) + [('x',) * 5, ('x+y',) * 5, ('x', '(x-y)', 'x', '(x+y)', 'x')]
        combos += [(a, b) for a in names for b in names]
        combos = list(dict.fromkeys(combos))
    mv = (2, 3, 4, 5)
    for c in combos:
        lab = '|'.join(c)
        out.append(Scenario('closed:massive:%s' % lab, closed(c, 6, mv, variants(c, 6))))
        if len(c) <= 2:
            out.append(Scenario('closed:massless:%s' % lab, closed(c, 6, (), [(1, 6, variants(c, 6)[0][2]), (2, 3, variants(c, 6)[1][2])])))
        if len(c) <= 3:
            out.append(Scenario('closed:two-digit:%s' % lab, closed(c, 12, (2, 3, 4, 5) if len(c) > 2 else (), variants(c, 12, True))))
        if not (len(c) > 1 and any('(' in s for s in c)):
            out.append(Scenario('open:%s' % lab, opened(c, 6, mv if len(c) > 2 else (), variants(c, 6))))
            if len(c) <= 2:
                out.append(Scenario('open:two-digit:%s' % lab, opened(c, 12, (), variants(c, 12, True))))
    out.append(Scenario('open products', products()))
    for c in [('x',), ('x+y',), ('x-y',), ('x+y+z',), ('x', 'x'), ('x+y', 'x'), ('x', 'x-y'), ('x', 'x', 'x'), ('x+y', 'x', 'x-y'), ('x', 'x+y', 'x', 'x')]:
        out.append(Scenario('spin indices:%s' % '|'.join(c), spin_indices(c, ())))
        out.append(Scenario('spin indices:massive:%s' % '|'.join(c), spin_indices(c, (1, 2, 3))))
    return out
