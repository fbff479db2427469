"""C21: the list of invariants of a given multiplicity."""
import collections
import dbm
import itertools
import os
import re
import shelve
import shutil
import tempfile
import oracle as O
import symx
from checks.common import *   # noqa
from harness import Scenario

BOUNDS = ("histories of two constructions of the list for 4 and 5 legs (thorough: three, also 7 legs), each with the default options or with one of them changed, any of them interrupted at any write to the cache; "
          "any subset of the entries present in the cache, reads failing at any point; "
          "value statements: 4 to 7 legs (thorough: 8), momentum-conserving points with symbolic spinors, all pairs of listed invariants")
OUTSIDE = ("the database library below shelve (locking, corrupted files it does not notice); for six legs the extra invariants found numerically (no_hard_coded_ones=False); "
           "more than 9 legs, which have no list; irreducibility of the listed invariants; parity of the chains through three sums, of which one orientation is listed")
ASSUMPTIONS = STD + ["the cache is modelled as a map from keys to values at the interface of shelve.open; a write is all or nothing, an interrupted construction leaves the entries written before",
                     "distinctness: pairs whose squares differ at one generated point (a witness on the real code) are settled by it, only the others are given to the solver"]
PARTS = ("invs_2", "invs_3", "invs_4", "invs_5", "invs_s", "invs_D", "invs_O", "invs_P", "invs_tr5")


class Crash(BaseException):
    pass


class Disk(object):
    """What is on disk: path -> dict.  Nondeterminism: `crash` decides before each write whether the process dies, `lost` whether an entry cannot be read."""

    def __init__(self, crash=None, lost=None):
        self.files, self.crash, self.lost = {}, crash, lost
        self.opened = []

    def open(self, path, flag='c', *a, **k):
        path = str(path)
        self.opened.append((path, flag))
        if flag in ('r', 'w') and path not in self.files:
            raise dbm.error[0]("no such file")
        if flag == 'n' or path not in self.files:
            self.files[path] = {}
        return Store(self, self.files[path], flag)


class Store(collections.abc.MutableMapping):
    def __init__(self, disk, d, flag):
        self.disk, self.d, self.flag = disk, d, flag

    def _readable(self, k):
        return k in self.d and not (self.disk.lost is not None and self.disk.lost(k))

    def __contains__(self, k):
        return self._readable(k)

    def __getitem__(self, k):
        if not self._readable(k):
            raise KeyError(k)
        v = self.d[k]
        return list(v) if isinstance(v, list) else v

    def __setitem__(self, k, v):
        if self.flag == 'r':
            raise dbm.error[0]("read only")
        if self.disk.crash is not None and self.disk.crash():
            raise Crash()
        self.d[k] = list(v) if isinstance(v, list) else v

    def __delitem__(self, k):
        del self.d[k]

    def __iter__(self):
        return iter([k for k in self.d if self._readable(k)])

    def __len__(self):
        return len(list(iter(self)))

    def sync(self):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class scratch_home(object):
    """lips keeps its cache below the home directory: point that to a directory of our own."""

    def __enter__(self):
        self.old = os.environ.get('HOME')
        self.dir = tempfile.mkdtemp(prefix='lips_verif_')
        os.environ['HOME'] = self.dir
        return self

    def __exit__(self, *a):
        if self.old is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = self.old
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


def parts(o):
    return {k: list(getattr(o, k)) for k in PARTS}


_ref = {}


def reference(n, opts):
    """the list made without cache (in an empty home)"""
    key = (n,) + tuple(sorted(opts.items()))
    if key not in _ref:
        from lips.invariants import Invariants
        _ref[key] = parts(Invariants(n, no_cached=True, **opts))
    return _ref[key]


def same(H, label, got, want):
    bad = [k for k in PARTS if got[k] != want[k]]
    H.true(label, not bad, '; '.join('%s: %d entries instead of %d' % (k, len(got[k]), len(want[k])) for k in bad))


FLAGS = ('no_hard_coded_ones', 'Restrict3Brackets', 'Restrict4Brackets', 'FurtherRestrict4Brackets')


def options(H, i):
    o = {}
    which = H.choose('options of call %d' % i, ['default', 'uncached'] + list(FLAGS))
    if which == 'uncached':
        o['no_cached'] = True
    elif which in FLAGS:
        o[which] = which == 'no_hard_coded_ones'
    return o


def history(ns, calls, crashes=1):
    """any sequence of constructions, at most `crashes` of them interrupted: whoever completes has the list it asked for"""
    def body(H):
        from lips.invariants import Invariants
        H.field('rational')
        left = [crashes]

        def crash():
            if left[0] and H.choose('process dies at this write', [False, True]):
                left[0] -= 1
                return True
            return False
        disk = Disk(crash)
        with scratch_home(), patched((shelve, 'open', disk.open)):
            for i in range(calls):
                n = H.choose('legs of call %d' % i, ns)
                o = options(H, i)
                want = reference(n, {k: v for k, v in o.items() if k != 'no_cached'})
                try:
                    got = parts(Invariants(n, **o))
                except Crash:
                    continue
                same(H, 'call %d: n=%d %s' % (i, n, o), got, want)
    return body


def partial(n):
    """an earlier process left any subset of the entries, and any entry may turn out unreadable at any moment"""
    def body(H):
        from lips.invariants import Invariants
        H.field('rational')
        here = {k: H.var('present ' + k) for k in PARTS}
        state = {'on': False}
        fails = [0]

        def lost(k):
            if not state['on']:
                return False
            if bool(H.cond_eq(here.get(k, 0), 0)):
                return True
            if fails[0] < 2 and H.choose('unreadable now', [False, True]):
                fails[0] += 1
                return True
            return False
        disk = Disk(lost=lost)
        with scratch_home(), patched((shelve, 'open', disk.open)):
            want = reference(n, {})
            Invariants(n)
            state['on'] = True
            same(H, 'first reader', parts(Invariants(n)), want)
            state['on'] = False
            same(H, 'second reader', parts(Invariants(n)), want)
    return body


def isolated(n):
    """the lists given out are the caller's own: changing them changes nobody else's"""
    def body(H):
        from lips.invariants import Invariants
        H.field('rational')
        disk = Disk()
        with scratch_home(), patched((shelve, 'open', disk.open)):
            want = reference(n, {})
            first = Invariants(n)
            k = H.choose('part', PARTS)
            getattr(first, k).append('⟨8|9⟩')
            del getattr(first, k)[:1]
            first.full.append('s_89')
            same(H, 'after changing a list of another object', parts(Invariants(n)), want)
            same(H, 'the same without cache', parts(Invariants(n, no_cached=True)), want)
    return body


def joined(n):
    """full is the concatenation of the parts, each entry once; the other views drop what they say"""
    def body(H):
        from lips.invariants import Invariants
        H.field('rational')
        H.var('x')
        o = Invariants(n, no_cached=True, no_hard_coded_ones=True)
        p = parts(o)
        flat = [x for k in PARTS for x in p[k]]
        H.true('full', sorted(o.full) == sorted(flat), 'full has %d entries, the parts %d' % (len(o.full), len(flat)))
        H.true('full has every entry once', len(set(o.full)) == len(o.full), repr([x for x in set(o.full) if o.full.count(x) > 1][:5]))
        H.true('full_minus_4_brackets', sorted(o.full_minus_4_brackets) == sorted(x for k in PARTS if k != 'invs_4' for x in p[k]), '')
        H.true('invs_N', sorted(o.invs_N) == sorted(p['invs_3'] + p['invs_4'] + p['invs_5']), '')
        if n >= 5:
            H.true('all two-particle brackets', sorted(p['invs_2']) == sorted(f % ij for ij in itertools.combinations(range(1, n + 1), 2) for f in ('⟨%d|%d⟩', '[%d|%d]')), repr(p['invs_2'][:8]))
        else:
            H.true('all two-particle brackets of one chirality', sorted(p['invs_2']) == sorted('⟨%d|%d⟩' % ij for ij in itertools.combinations(range(1, n + 1), 2)), repr(p['invs_2'][:8]))
        got = collections.Counter()
        for s in p['invs_s']:
            m = re.match(r'^s_?([1-9]+)$', s)
            a = frozenset(m.group(1))
            b = frozenset(map(str, range(1, n + 1))) - a
            got[min(tuple(sorted(a)), tuple(sorted(b)), key=lambda t: (len(t), t))] += 1
        want = set(min(t, tuple(sorted(set(map(str, range(1, n + 1))) - set(t))), key=lambda t: (len(t), t))
                   for m in range(3, n // 2 + 1) for t in itertools.combinations([str(i) for i in range(1, n + 1)], m))
        H.true('every Mandelstam of three or more legs once', set(got) == want and all(v == 1 for v in got.values()), repr(sorted(set(got) ^ want)[:5]))
        if n >= 5:
            H.true('tr5 of all fourtuples of independent legs', len(p['invs_tr5']) == len(list(itertools.combinations(range(n - 1), 4))), repr(p['invs_tr5'][:5]))
    return body


def values(n, chunk, chunks):
    """no listed invariant vanishes identically on momentum-conserving points, no two are the same up to sign"""
    def body(H):
        from lips.invariants import Invariants
        H.field('finite field')
        oPs, _ = H.cons(n)
        names = Invariants(n, no_cached=True, no_hard_coded_ones=True).full
        mine = names[chunk::chunks]
        w = witness(n, names)
        for a in mine:
            if H.symbolic and w.get(a):
                H.true('%s is not identically zero' % a, symx.z3.BoolVal(True))
            else:
                H.true('%s is not identically zero' % a, not vanishes(H, oPs, a), 'vanishes at every point')
        groups = collections.defaultdict(list)
        for b in names:
            groups[w.get(b)].append(b)
        for a in mine:
            twins = [b for b in groups[w.get(a)] if b != a and names.index(b) > names.index(a)]
            H.true('%s is listed once' % a, names.count(a) == 1, 'listed more than once')
            for b in twins:
                H.true('%s and %s are different functions' % (a, b), not vanishes(H, oPs, a, b), 'the same up to sign at every point')
    return body


_wit = {}


def witness(n, names):
    """squares of the invariants at one generated point, on the real code over a finite field"""
    key = (n, tuple(names))
    if key not in _wit:
        import lips
        from syngular import Field
        oPs = lips.Particles(n, field=Field('finite field', 2 ** 31 - 1, 1), seed=11)
        _wit[key] = {a: int(oPs(a) ** 2) for a in names}
    return _wit[key]


def vanishes(H, oPs, a, b=None):
    """is a (or a² - b²) zero at all points: decided by the solver; concretely, at this one"""
    x = oPs(a)
    d = x if b is None else x ** 2 - oPs(b) ** 2
    c = H.cond_eq(d, 0)
    if not H.symbolic:
        return bool(c)
    r, _ = H.c.check(symx.z3.Not(symx.cond(c)), timeout=60000, kind='obligation')
    return r == 'unsat'


def conj(s):
    t = str.maketrans('⟨⟩[]', '[]⟨⟩')
    return s.translate(t)


def flip(s):
    """the reversed chain"""
    m = re.match(r'^([⟨\[])(\d)\|(.*\|)?(\d)([⟩\]])$', s)
    if not m:
        return None
    mid = [x for x in (m.group(3) or '').split('|') if x]
    op = {'⟩': '⟨', ']': '['}[m.group(5)]
    cl = {'⟨': '⟩', '[': ']'}[m.group(1)]
    return op + '|'.join([m.group(4)] + mid[::-1] + [m.group(2)]) + cl


def closed(n, chunk, chunks):
    """parity: the conjugate of every listed invariant is, up to sign, a listed one"""
    def body(H):
        from lips.invariants import Invariants
        H.field('finite field')
        oPs, _ = H.cons(n)
        names = Invariants(n, no_cached=True, no_hard_coded_ones=True).full
        val = {}

        def v(s):
            if s not in val:
                val[s] = oPs(s)
            return val[s]
        for a in names[chunk::chunks]:
            if a.count('|') > 3:
                continue            # chains through three sums of momenta: lips lists one orientation only
            b = conj(a)
            if b in names or b == a:
                H.true('conjugate of %s' % a, symx.z3.BoolVal(True) if H.symbolic else True)
                continue
            f = flip(b)
            if f in names:
                H.true('conjugate of %s' % a, _or(H, H.cond_eq(v(b), v(f)), H.cond_eq(v(b), -v(f))), 'not the listed %s' % f)
                continue
            H.true('conjugate of %s' % a, any(vanishes(H, oPs, b, c) for c in names if kind(c) == kind(b)), 'no listed invariant equals it')
    return body


def kind(s):
    return (re.sub(r'[\d+]', '', s)[:2], s.count('|'))


def _or(H, a, b):
    return a | b


def order(n):
    """the list does not depend on the iteration order of sets (hash randomisation)"""
    def body(H):
        import lips.invariants as m
        H.field('rational')
        H.var('x')
        want = reference(n, {'no_hard_coded_ones': True})

        class Set(set):
            def __iter__(self):
                xs = sorted(set.__iter__(self), key=str)
                return iter(xs[::-1] if rev else xs)

            def __sub__(self, o):
                return Set(set.__sub__(self, o))
        for rev in (False, True):
            m.set = Set
            try:
                got = parts(m.Invariants(n, no_cached=True, no_hard_coded_ones=True))
            finally:
                del m.set
            for k in PARTS:
                H.true('%s, sets iterated %s' % (k, 'backwards' if rev else 'forwards'), sorted(got[k]) == sorted(want[k]) or norm(got[k]) == norm(want[k]), '%d and %d entries' % (len(got[k]), len(want[k])))
    return body


def norm(xs):
    return sorted(re.sub(r'\(([\d+]+)\)', lambda g: '(' + '+'.join(sorted(g.group(1).split('+'))) + ')', x) for x in xs)


def scenarios(tier):
    out = []
    F = dict(fields=['rational'], budget=500)
    G = dict(fields=['finite field'], setup=with_convention('asymmetric'), budget=500)
    out.append(Scenario('history:4', history([4], 2), max_paths=4000, **F))
    out.append(Scenario('history:4,5', history([4, 5], 2), max_paths=6000, **F))
    if tier == 'thorough':
        out.append(Scenario('history:5:three calls', history([5], 3), max_paths=12000, **F))
        out.append(Scenario('history:5,7', history([5, 7], 2), max_paths=6000, **F))
        out.append(Scenario('history:4:two interrupted', history([4], 3, 2), max_paths=30000, **F))
    for n in (4, 5):
        out.append(Scenario('partial cache:%d' % n, partial(n), max_paths=4000, **F))
        out.append(Scenario('own lists:%d' % n, isolated(n), **F))
    for n in (4, 5, 6, 7) if tier == 'quick' else (4, 5, 6, 7, 8):
        out.append(Scenario('parts:%d' % n, joined(n), **F))
        k = {4: 1, 5: 1, 6: 3, 7: 6, 8: 12}[n]
        for c in range(k):
            out.append(Scenario('values:%d:%d/%d' % (n, c, k), values(n, c, k), **G))
        if n >= 5:
            for c in range(k):
                out.append(Scenario('parity:%d:%d/%d' % (n, c, k), closed(n, c, k), **G))
    for n in (5, 6, 7):
        out.append(Scenario('set order:%d' % n, order(n), **F))
    return out
