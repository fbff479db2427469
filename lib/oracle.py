"""Independent definitions the checks compare lips against, on plain nested lists of scalars (no lips code).

Conventions (those lips documents): a massless particle is (r, l) with r = λ_α = (a, b), l = λ~_α. = (c, d);
index raising is by ε = [[0, 1], [-1, 0]];  <i| = λ^α = (b, -a),  |i] = λ~^α. = (d, -c)."""


def ru(r):
    return [r[1], -r[0]]


def lu(l):
    return [l[1], -l[0]]


def ang(ri, rj):
    return ri[1] * rj[0] - ri[0] * rj[1]


def sqr(li, lj):
    return li[0] * lj[1] - li[1] * lj[0]


def Pdn(r, l):
    """P_{α α.} = |i>[i|"""
    return [[r[0] * l[0], r[0] * l[1]], [r[1] * l[0], r[1] * l[1]]]


def Pup(r, l):
    """P^{α. α} = |i]<i|"""
    a, b = ru(r)
    c, d = lu(l)
    return [[c * a, c * b], [d * a, d * b]]


def up_of_dn(m):
    """Both indices raised with ε, transposed: P^{α. α} from P_{α α.}."""
    return [[m[1][1], -m[0][1]], [-m[1][0], m[0][0]]]


dn_of_up = up_of_dn


def mat(a, b):
    return [[sum_([a[i][k] * b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def sum_(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def madd(*ms):
    return [[sum_([m[i][j] for m in ms]) for j in range(len(ms[0][0]))] for i in range(len(ms[0]))]


def mscale(k, m):
    return [[k * x for x in row] for row in m]


def tr(m):
    return m[0][0] + m[1][1]


def det2(m):
    return m[0][0] * m[1][1] - m[0][1] * m[1][0]


def row(v):
    return [list(v)]


def col(v):
    return [[x] for x in v]


def four(m, I):
    """P^μ from P_{α α.}; I is the imaginary unit."""
    return [(m[0][0] + m[1][1]) / 2, (m[0][1] + m[1][0]) / 2, I * (m[0][1] - m[1][0]) / 2, (m[0][0] - m[1][1]) / 2]


def dn_of_four(p, I):
    """P_{α α.} from P^μ (inverse of `four`)."""
    return [[p[0] + p[3], p[1] - I * p[2]], [p[1] + I * p[2], p[0] - p[3]]]


def mink(p, q):
    return p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3]


def dot_dn(m, n):
    """P.Q from two P_{α α.}: half the trace of P^{α. α} Q_{α α.}."""
    return tr(mat(up_of_dn(m), n)) / 2


def gdet(m):
    """Determinant by permutation expansion."""
    import itertools
    n = len(m)
    tot = 0
    for p in itertools.permutations(range(n)):
        sgn = 1
        for i in range(n):
            for j in range(i + 1, n):
                if p[i] > p[j]:
                    sgn = -sgn
        t = sgn
        for i in range(n):
            t = t * m[i][p[i]]
        tot = tot + t
    return tot


class Kin(object):
    """Kinematics as plain data: P_dn for every leg, spinors for massless legs (or two-column ones for massive spinors)."""

    def __init__(self, r, l, dn=None):
        self.r, self.l = r, l
        self.n = len(r)
        self.dn = dn or [Pdn(r[i], l[i]) if r[i] is not None else None for i in range(self.n)]
        self.up = [up_of_dn(m) for m in self.dn]

    def a(self, i, j):
        return ang(self.r[i - 1], self.r[j - 1])

    def s(self, i, j):
        return sqr(self.l[i - 1], self.l[j - 1])

    def sumdn(self, terms):
        """terms: list of (sign, index)"""
        return madd(*[mscale(sg, self.dn[i - 1]) for sg, i in terms])

    def mand(self, idx):
        return det2(self.sumdn([(1, i) for i in idx]))

    def mand_pairs(self, idx):
        """massless legs: sum of <ij>[ji]"""
        return sum_([self.a(i, j) * self.s(j, i) for k, i in enumerate(idx) for j in idx[k + 1:]])

    def dot(self, A, B):
        return dot_dn(self.sumdn([(1, i) for i in A]), self.sumdn([(1, i) for i in B]))

    def chain(self, start, mids, end):
        """start/end: ('a', i) angle, ('s', i) square or None (open; then start_kind of first matrix must be given)
        mids: list of lists of (sign, idx).  Returns a matrix (list of lists)."""
        kind = start[0] if start[0] in 'as' else None
        if start[0] == 'a':
            m, nxt = row(ru(self.r[start[1] - 1])), 'dn'
        elif start[0] == 's':
            m, nxt = row(self.l[start[1] - 1]), 'up'
        else:
            m, nxt = None, start[0][1:]          # 'odn' or 'oup'
        del kind
        for t in mids:
            M = self.sumdn(t)
            if nxt == 'up':
                M = up_of_dn(M)
            m = M if m is None else mat(m, M)
            nxt = 'up' if nxt == 'dn' else 'dn'
        if end is not None:
            e = col(self.r[end[1] - 1]) if end[0] == 'a' else col(lu(self.l[end[1] - 1]))
            m = mat(m, e)
        return m


# ------------------------------------------------------------------------------------------- invariants by their name

def corners_of(n, ijk):
    """corner starting at each of i, j, k and extending cyclically up to the next of them"""
    out = []
    for st in ijk:
        c, x = [st], st % n + 1
        while x not in ijk:
            c.append(x)
            x = x % n + 1
        out.append(c)
    return out


def _terms(s):
    s = s.strip('()')
    out, sg = [], 1
    for ch in s:
        if ch == '+':
            sg = 1
        elif ch == '-':
            sg = -1
        else:
            out.append((sg, int(ch)))
    return out


def invariant(K, name):
    """Value of a named invariant (single-digit labels) from the definition of the notation."""
    import re
    m = re.match(r'^\((⟨\d\|.*\])-(⟨\d\|.*\])\)$', name)
    if m:
        return invariant(K, m.group(1)) - invariant(K, m.group(2))
    if name[0] in '⟨[' and name[-1] in '⟩]':
        parts = re.split(r'\|', name[1:-1])
        mids = [_terms(p) for p in parts[1:-1]]
        v = K.chain(('a' if name[0] == '⟨' else 's', int(parts[0])), mids, ('a' if name[-1] == '⟩' else 's', int(parts[-1])))
        return v[0][0]
    if name.startswith('tr5('):
        name = 'tr5_' + name[4:-1]
    kind, idx = name.split('_')
    if kind == 's':
        return K.mand([int(c) for c in idx])
    s = lambda c: K.mand(c)      # noqa
    if kind == 'Δ':
        cs = [[int(x) for x in c] for c in idx.split('|')] if '|' in idx else corners_of(K.n, [int(c) for c in idx])
        ms = [K.sumdn([(1, i) for i in c]) for c in cs]
        k = len(cs)
        return (-1) ** k * gdet([[dot_dn(ms[i], ms[j]) for j in range(k - 1)] for i in range(k - 1)])
    if kind in 'ΩΠ':
        A, B, C = corners_of(K.n, [int(c) for c in idx])
        if kind == 'Ω':
            return 2 * s(C) * s(B) - (s(C) + s(B) - s(A)) * s(C + [A[0]])
        return s(C + [A[0]]) - s(C + [A[1]])
    if kind == 'tr5':
        dn = [K.sumdn(_terms(c)) for c in (idx.split('|') if '|' in idx else idx)]
        up = [up_of_dn(x) for x in dn]
        return tr(mat(mat(dn[0], up[1]), mat(dn[2], up[3]))) - tr(mat(mat(up[0], dn[1]), mat(up[2], dn[3])))
    raise KeyError(name)
