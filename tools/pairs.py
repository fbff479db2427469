"""Lists the pairs of limits C09 explores and whether the library supports each of them (found by trying, with 300-digit numbers, at several points).
Run by hand; its output checks/pairs.json is committed and is the specification of which pairs have to be reached."""
import os
import sys
import json
import random
import itertools
import warnings
from multiprocessing import Pool

os.environ.setdefault('HOME', '/tmp')
sys.path.insert(0, os.environ.get('LIPS_REPO', '/repo'))
warnings.filterwarnings('ignore')
import mpmath                                   # noqa
import lips                                     # noqa
from syngular import Field                      # noqa

C0 = Field('mpc', 0, 300)


def families(n):
    R = range(1, n + 1)
    two = [f % ij for ij in itertools.combinations(R, 2) for f in ('⟨%d|%d⟩', '[%d|%d]')]
    two += [f % (j, i) for i, j in itertools.combinations(R, 2) for f in ('⟨%d|%d⟩', '[%d|%d]')]
    three = ['⟨%d|(%d+%d)|%d]' % (i, j, k, l) for i in R for j, k in itertools.combinations(R, 2) if i not in (j, k) for l in R if l not in (j, k)]
    three += ['[%d|(%d+%d)|%d⟩' % (i, j, k, l) for i in R for j, k in itertools.combinations(R, 2) if i not in (j, k) for l in R if l not in (j, k)]
    masses, grams, four = [], [], []
    if n == 6:
        masses = ['s_' + ''.join(map(str, c)) for c in itertools.combinations(R, 3)]
        grams = ['Δ_135', 'Δ_624', 'Δ_15|26|34', 'Δ_14|23|56', 'Δ_13|24|56', 'Δ_12|34|56', 'Δ_25|13|46']
        for i in R:
            for j, k in itertools.combinations([x for x in R if x != i], 2):
                for l, m in itertools.combinations([x for x in R if x not in (i, j, k)], 2):
                    for o in [i] + [x for x in R if x not in (i, l, m)]:
                        four.append('⟨%d|(%d+%d)|(%d+%d)|%d⟩' % (i, j, k, l, m, o))
        four += [f.replace('⟨', '[').replace('⟩', ']') for f in four]
    if n == 7:
        masses = ['s_' + ''.join(map(str, c)) for k in (3, 4) for c in itertools.combinations(R, k)]
    return dict(two=two, three=three, masses=masses, grams=grams, four=four)


SIZES = {5: {'two,two': (130, 380), 'two,three': (24, 100), 'three,two': (12, 60), 'three,three': (24, 100)},
         6: {'two,two': (60, 200), 'two,masses': (30, 120), 'masses,two': (12, 50), 'two,grams': (10, 40), 'grams,two': (8, 30), 'two,three': (24, 100),
             'three,two': (10, 40), 'three,masses': (24, 80), 'masses,three': (10, 40), 'masses,masses': (16, 60), 'three,three': (24, 100),
             'three,grams': (14, 50), 'grams,three': (8, 20), 'two,four': (16, 60), 'four,two': (8, 30)},
         7: {'two,two': (14, 60), 'two,masses': (14, 60), 'masses,two': (6, 30), 'masses,masses': (24, 80), 'two,three': (10, 40), 'three,two': (6, 20),
             'three,three': (10, 40), 'three,masses': (10, 40), 'masses,three': (6, 20)}}
SPECIAL = [("⟨7|3+4|5+6|7⟩", "[7|3+4|5+6|7]"), ("⟨1|3+4|5+6|1⟩", "Δ_735"), ("⟨2|1+7|3+4|2⟩", "Δ_735"), ("⟨7|3+4|5+6|7⟩", "Δ_735"), ("⟨7|1+2|5+6|7⟩", "Δ_12|347|56"),
           ("[7|1+2|5+6|7]", "Δ_12|347|56"), ("⟨3|5+6|1+2|3⟩", "Δ_12|347|56"), ("⟨7|3+4|5+6|7⟩", "Δ_135"), ("Δ_735", "⟨1|3+4|5+6|1⟩"), ("Δ_12|347|56", "⟨7|1+2|5+6|7⟩")]


def same(n, a, b):
    """two Mandelstams related by momentum conservation are one and the same invariant"""
    if a[0] == b[0] == 's':
        A, B = set(a[2:]), set(b[2:])
        return A == B or (not A & B and len(A | B) == n)
    if a[0] in '⟨[' and b[0] in '⟨[' and len(a) == len(b) == 5 and a[0] == b[0]:
        return {a[1], a[3]} == {b[1], b[3]}
    return a == b


def supported(t):
    n, a, b = t
    for s in range(4):
        oPs = lips.Particles(n, field=C0, seed=100 + s)
        try:
            X, Y = mpmath.mpf(10) ** -30, mpmath.mpf(3) * mpmath.mpf(10) ** -30
            oPs._set_pair(a, X, b, Y)
            va, vb = oPs(a), oPs(b)
            ok = min(abs(va - X), abs(va + X)) < 1e-100 and min(abs(vb - Y), abs(vb + Y)) < 1e-100
            return 'reached' if ok else 'switched'
        except Exception:
            pass
    return 'refused'


if __name__ == '__main__':
    rnd, out = random.Random(1), []
    for n, fs in SIZES.items():
        fam = families(n)
        for key, (q, t) in fs.items():
            A, B = key.split(',')
            seen = []
            while len(seen) < t:
                p = [n, rnd.choice(fam[A]), rnd.choice(fam[B])]
                if p not in seen and not same(*p):
                    seen.append(p)
            out += [dict(family=key, n=n, a=p[1], b=p[2], quick=i < q) for i, p in enumerate(seen)]
    out += [dict(family='special', n=7, a=a, b=b, quick=i % 2 == 0) for i, (a, b) in enumerate(SPECIAL)]
    with Pool(8) as pool:
        ok = pool.map(supported, [(d['n'], d['a'], d['b']) for d in out], chunksize=4)
    for d, o in zip(out, ok):
        d['how'] = o
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks', 'pairs.json'), 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(d, ensure_ascii=False) for d in out) + '\n]\n')
    st = {}
    for d in out:
        k = (d['n'], d['family'])
        st.setdefault(k, []).append(d['how'])
    for k, v in st.items():
        print(k, len(v), {x: v.count(x) for x in set(v)})
