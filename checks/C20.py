"""C20: symmetries compatible with phase weights."""
import itertools
from checks.common import *   # noqa
from harness import Scenario

BOUNDS = ("2 to 4 legs (thorough: 5) with symbolic phase weights (any numbers), given as list, tuple or array; the same with repeated and zero weights at 5 and 6 legs; "
          "all permutations up to 5 legs for inverses and compositions acting on symbolic points")
OUTSIDE = "more legs; labels of more than one digit (permutations are strings of digits)"
ASSUMPTIONS = STD


def perm(s):
    return [int(x) - 1 for x in s]


def entry_ok(H, label, e, n):
    ok = isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], str) and sorted(e[0]) == [str(i) for i in range(1, n + 1)] and isinstance(e[1], bool)
    if not ok:
        H.fail(label + ': form of the entries', repr(e))
    return ok


def compatible(n, form=list, pattern=None):
    """pattern: tuple of (sign, name) or 0: weights with some of them related"""
    def body(H):
        from lips.symmetries import phase_weights_compatible_symmetries as f
        H.field('rational')
        if pattern is None:
            w = [H.var('w%d' % i) for i in range(1, n + 1)]
        else:
            names = {}
            for x in pattern:
                if x != 0 and x[1] not in names:
                    names[x[1]] = H.var(x[1])
            w = [H.const(0) if x == 0 else x[0] * names[x[1]] for x in pattern]
        given = form(w)
        got = f(given)
        H.eq('the weights given are not modified', obj(list(given)), obj(w))
        seen = {}
        for e in got:
            if not entry_ok(H, 'symmetries', e, n):
                return
            seen.setdefault(e[0], []).append(e[1])
        H.true('every permutation at most once', all(len(v) == 1 for v in seen.values()), repr({k: v for k, v in seen.items() if len(v) > 1}))
        H.true('identity included', seen.get(''.join(str(i) for i in range(1, n + 1))) == [False], repr(got[:3]))
        for s in itertools.permutations(range(n)):
            key = ''.join(str(i + 1) for i in s)
            keeps = _all(H, [H.cond_eq(w[s[i]], w[i]) for i in range(n)])
            flips = _all(H, [H.cond_eq(w[s[i]], -w[i]) for i in range(n)])
            v = seen.get(key)
            if v is None:
                H.true('absent: %s' % key, ~keeps & ~flips, 'compatible permutation missing')
            elif v[0] is False:
                H.true('without conjugation: %s' % key, keeps, 'weights not preserved')
            else:
                H.true('with conjugation: %s' % key, flips & ~keeps, 'weights not reversed (or preserved already)')
    return body


def _all(H, conds):
    out = conds[0]
    for c in conds[1:]:
        out = out & c
    return out


def every(n):
    """all symmetries: every permutation exactly once, without conjugation; and it is what zero weights give"""
    def body(H):
        from lips.symmetries import all_symmetries, identity
        H.field('rational')
        H.var('x')
        got = all_symmetries(n)
        want = sorted((''.join(map(str, s)), False) for s in itertools.permutations(range(1, n + 1)))
        H.true('all symmetries of %d legs' % n, sorted(got) == want, repr(got[:4]))
        H.true('identity', identity(n) == (''.join(map(str, range(1, n + 1))), False), repr(identity(n)))
    return body


def undo(n, conj):
    """the inverse undoes the symmetry on a symbolic point, from either side, also for bare permutations"""
    def body(H):
        from lips.symmetries import inverse
        H.field('finite field')
        oPs, (r, l) = H.raw(n)
        s = ''.join(map(str, H.choose('permutation', list(itertools.permutations(range(1, n + 1))))))
        t = inverse(s)
        if not (isinstance(t, str) and sorted(t) == sorted(s)):
            H.fail('inverse of a permutation', repr(t))
            return
        ru = inverse((s, conj))
        if not entry_ok(H, 'inverse of a symmetry', ru, n):
            return
        H.true('inverse keeps the conjugation', ru[1] is conj and ru[0] == t, repr(ru))
        for lab, o in (('after', oPs.image((s, conj)).image(ru)), ('before', oPs.image(ru).image((s, conj)))):
            for i in range(n):
                H.eq('%s: leg %d' % (lab, i + 1), obj(L(o[i + 1].r_sp_d) + L(o[i + 1].l_sp_d.T)), obj([[r[i][0]], [r[i][1]], [l[i][0]], [l[i][1]]]))
    return body


def acts(n):
    """the listed symmetries are the ones under which the little-group behaviour is unchanged: rescaling every leg of
    a monomial of weights w and of its image by the same parameters multiplies both by the same factor"""
    def body(H):
        from lips.symmetries import phase_weights_compatible_symmetries as f
        H.field('finite field')
        # product of spinor brackets with weights +1 (angle) and -1 (square) at the ends
        term = H.choose('term', ['⟨1|2⟩*[3|4]', '⟨1|2⟩*[2|3]', '⟨1|2⟩*[1|2]', '⟨1|2⟩^2*[3|4]', '⟨1|3⟩'])
        w = {'⟨1|2⟩*[3|4]': [1, 1, -1, -1], '⟨1|2⟩*[2|3]': [1, 0, -1, 0], '⟨1|2⟩*[1|2]': [0, 0, 0, 0], '⟨1|2⟩^2*[3|4]': [2, 2, -1, -1], '⟨1|3⟩': [1, 0, 1, 0]}[term]
        term = term.replace('^2', '**2').replace('*', '*')
        r, l = H.raw_spinors(n)
        t = [H.var('t%d' % i) for i in range(n)]
        for x in t:
            H.assume_nonzero(x)
        a = H.particles((r, l))
        b = H.particles(([[x * t[i] for x in r[i]] for i in range(n)], [[x / t[i] for x in l[i]] for i in range(n)]))
        for s in f(w):
            if not entry_ok(H, 'symmetries', s, n):
                return
            x, y = a.image(s)(term), b.image(s)(term)
            scale = 1
            for i in range(n):
                for _ in range(abs(w[i])):
                    scale = scale * t[i] if w[i] > 0 else scale / t[i]
            H.eq('weights of the image under %s of %s' % (s, term), y, x * scale)
    return body


def scenarios(tier):
    out = []
    F = dict(fields=['rational'], budget=400)
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        out.append(Scenario('weights:%d' % n, compatible(n), max_paths=6000, timeout=20000, **F))
    out.append(Scenario('weights:3:tuple', compatible(3, tuple), max_paths=4000, **F))
    out.append(Scenario('weights:3:array', compatible(3, obj), max_paths=4000, **F))
    x, y, z = (1, 'x'), (1, 'y'), (1, 'z')
    mx, my = (-1, 'x'), (-1, 'y')
    for k, p in enumerate(((x, x, mx, mx, 0), (x, y, mx, my, 0), (x, x, x, x, x), (x, mx, y, y, z), (0, 0, x, mx, y))):
        out.append(Scenario('weights:5:pattern %d' % k, compatible(5, list, p), max_paths=4000, **F))
    for k, p in enumerate(((x, mx, x, mx, 0, 0),) + (() if tier == 'quick' else ((x, x, x, mx, mx, mx), (x, y, z, mx, my, (-1, 'z')), (x, x, y, y, 0, 0)))):
        out.append(Scenario('weights:6:pattern %d' % k, compatible(6, list, p), max_paths=4000, **F))
    for n in range(1, 7):
        out.append(Scenario('all:%d' % n, every(n), **F))
    G = dict(fields=['finite field'], setup=with_convention('asymmetric'), budget=400)
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for c in (False, True):
            out.append(Scenario('inverse:%d:%s' % (n, c), undo(n, c), max_paths=200, **G))
    out.append(Scenario('little group weights', acts(4), max_paths=100, **G))
    return out
