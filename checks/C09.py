"""C09: double limits reach both requested values (up to sign), conserving momentum."""
import os
import json
import oracle as O
from checks.common import *   # noqa
from checks.C08 import now_kin, legs
from harness import Scenario

BOUNDS = ("massless points of 5 and 6 legs; the two target values are independent symbols and one leg (thorough: two) of the starting point is symbolic, the others "
          "sit at a fixed generic rational point; pairs of spinor products, spinor products with chains, three-particle masses and triangle Gram determinants, chains with "
          "chains and with three-particle masses, pairs of three-particle masses")
OUTSIDE = ("pairs the library refuses (reported as not implemented, or solved by switching to an equivalent pair); starting points off the symbolic family; "
           "target values for which a denominator of the construction vanishes")
ASSUMPTIONS = STD + ["a square root is any number whose square is the argument"]


def pair(n, a, b, sym, how):
    """how: 'reached' (the pair is supported), 'switched' (the library answers with the equivalent pair it documents), 'refused' (an error, or the values)"""
    def body(H):
        from lips.tools import myException
        H.field('finite field')
        oPs, _ = H.cons(n, sym)
        X, Y = H.var('X'), H.var('Y')
        switched = []
        orig = getattr(type(oPs), '_set_pair_inner', None)

        def spy(self, *args):
            r = orig(self, *args)
            if type(r) is list:
                switched.append(r)
            return r
        try:
            with patched((type(oPs), '_set_pair_inner', spy)):
                oPs._set_pair(a, X, b, Y)
        except myException:
            if how == 'refused':
                H.true('refused with an error', True)
                return
            raise
        K = now_kin(oPs)
        va, vb = O.invariant(K, a), O.invariant(K, b)
        if how == 'reached' or (how == 'refused' and not switched):
            H.true('%s has the requested value up to sign' % a, H.cond_eq(va, X) | H.cond_eq(va, -X))
            H.true('%s has the requested value up to sign' % b, H.cond_eq(vb, Y) | H.cond_eq(vb, -Y))
        conserved(H, '', oPs)
        for i, p in enumerate(list.__iter__(oPs), 1):
            consistent(H, 'leg %d' % i, p)
    return body


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for d in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pairs.json'))):
        if q and not d['quick']:
            continue
        n, a, b = d['n'], d['a'], d['b']
        root = any(x in d['family'] for x in ('grams', 'four', 'special'))
        sym = sorted(set(legs(a)))[:0 if root else 1] if q else sorted(set(legs(a) + legs(b)))[:1 if root else 2]
        out.append(Scenario('%d:%s,%s' % (n, a, b), pair(n, a, b, sym, d['how']), budget=120))
    return out
