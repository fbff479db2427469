"""C16: a point is a list of legs numbered from one."""
import oracle as O
from checks.common import *   # noqa
from checks.C03 import kin
from checks.C13 import snap
from harness import Scenario

BOUNDS = ("points of 1 to 6 and of 12 legs with symbolic components; every sequence of up to three operations (thorough: four) chosen by the solver among reading, replacing, deleting "
          "and inserting a leg, appending, reading and assigning a spinor by its name, with every index from -2 to two beyond the end; the list after each operation compared leg by leg with a plain Python list")
OUTSIDE = "slices (which lips leaves with Python's zero-based meaning); sequences longer than the bound"
ASSUMPTIONS = STD

NAMES = ('r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u', 'r2_sp', 'r2_sp_b')


def agrees(H, label, oPs, model, last=True):
    """model: list of (particle, snapshot dict)"""
    if not last:
        return
    H.true(label + ': number of legs, iteration', len(oPs) == len(model) and oPs.multiplicity == len(model) and all(x is y for x, y in zip(oPs, [p for p, _ in model])) and len(list(oPs)) == len(model)
           and all(oPs[i] is p for i, (p, _) in enumerate(model, 1)))
    for i, (p, s) in enumerate(model, 1):
        H.eq('%s: representations of leg %d' % (label, i), obj([x for k in s for x in flat(getattr(p, k))]), obj([x for k in s for x in flat(s[k])]))


def flat(x):
    return [b for a in L(x) for b in a]


def shot(p):
    return {k: L(getattr(p, k)) for k in NAMES}


def spin(r, l):
    return {'r_sp_d': O.col(r), 'r_sp_u': [O.ru(r)], 'l_sp_d': [l], 'l_sp_u': O.col(O.lu(l)), 'r2_sp': O.Pup(r, l), 'r2_sp_b': O.Pdn(r, l)}


def refused(H, label, f):
    try:
        f()
    except IndexError:
        return
    except (Exception) as e:
        H.fail(label, 'raised %s instead of IndexError' % type(e).__name__)
        return
    H.fail(label, 'accepted')


def step(H, t, oPs, model, ops, last=True):
    n = len(model)
    op = H.choose('op%d' % t, ops)
    i = H.choose('index%d' % t, list(range(-2, n + 3)) if last and t == 0 else list(range(0, n + 2)) if last else list(range(1, n + 1)))
    ok = 1 <= i <= n
    lab = 'step %d, %s %d' % (t, op, i)
    if op == 'get':
        if ok:
            H.true(lab, oPs[i] is model[i - 1][0])
            H.true(lab + ' by name', oPs["%d" % i] is model[i - 1][0] and oPs["p%d" % i] is model[i - 1][0])
        else:
            refused(H, lab, lambda: oPs[i])
    elif op == 'set':
        a, b = spinor_pair(H, 'n%d' % t)
        p = H.particle(a, b)
        if ok:
            oPs[i] = p
            model[i - 1] = (p, spin(a, b))
        else:
            refused(H, lab, lambda: oPs.__setitem__(i, p))
    elif op == 'del':
        if ok:
            del oPs[i]
            del model[i - 1]
        else:
            refused(H, lab, lambda: oPs.__delitem__(i))
    elif op == 'insert':
        a, b = spinor_pair(H, 'n%d' % t)
        p = H.particle(a, b)
        if ok:
            oPs.insert(i, p)
            model.insert(i - 1, (p, spin(a, b)))
        else:
            refused(H, lab, lambda: oPs.insert(i, p))
    elif op == 'append':
        a, b = spinor_pair(H, 'n%d' % t)
        p = H.particle(a, b)
        oPs.append(p)
        model.append((p, spin(a, b)))
    elif op == 'read spinor':
        if ok:
            p, s = model[i - 1]
            for key, w in (("⟨%d|", 'r_sp_u'), ("|%d⟩", 'r_sp_d'), ("[%d|", 'l_sp_d'), ("|%d]", 'l_sp_u')):
                H.eq(lab + ' ' + key % i, oPs[key % i], obj(s[w]))
    elif op.startswith('assign'):
        if ok:
            p, s = model[i - 1]
            a = [H.var('s%da' % t), H.var('s%db' % t)]
            r, l = [s['r_sp_d'][0][0], s['r_sp_d'][1][0]], list(s['l_sp_d'][0])
            key = op.split()[1]
            if key == '⟨i|':
                oPs["⟨%d|" % i] = obj([O.ru(a)])
                r = a
            elif key == '|i⟩':
                oPs["|%d⟩" % i] = obj(O.col(a))
                r = a
            elif key == '[i|':
                oPs["[%d|" % i] = obj([a])
                l = a
            else:
                oPs["|%d]" % i] = obj(O.col(O.lu(a)))
                l = a
            model[i - 1] = (p, spin(r, l))
    agrees(H, lab, oPs, model, last)


OPS = ['get', 'set', 'del', 'insert', 'append', 'read spinor', 'assign ⟨i|', 'assign |i⟩', 'assign [i|', 'assign |i]']


def sequence(n, steps, first=None, second=None):
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, n)
        model = [(p, spin(K.r[i], K.l[i])) for i, p in enumerate(list.__iter__(oPs))]
        for t in range(steps):
            step(H, t, oPs, model, [first] if t == 0 and first else [second] if t == 1 and second else OPS, t == steps - 1)
    return body


def twelve():
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 12)
        model = [(p, spin(K.r[i], K.l[i])) for i, p in enumerate(list.__iter__(oPs))]
        step(H, 0, oPs, model, OPS)
    return body


def errors():
    def body(H):
        H.field('finite field')
        oPs, K = kin(H, 4)
        for key in ('', 'x', '⟨|', 'abc'):
            refused(H, 'key %r' % key, lambda: oPs[key])
        for key in ('⟨5|', '|7]', '[0|', '|9⟩', '5', 'p0'):
            refused(H, 'key %r' % key, lambda: oPs[key])
            if key[0] in '⟨[|':
                refused(H, 'assign to %r' % key, lambda: oPs.__setitem__(key, obj([[H.F(1), H.F(2)]])))
        s = [shot(p) for p in list.__iter__(oPs)]
        for p, x in zip(list.__iter__(oPs), s):
            for k in x:
                H.eq('untouched', getattr(p, k), obj(x[k]))
    return body


def scenarios(tier):
    out = []
    q = tier == 'quick'
    asym = with_convention('asymmetric')
    for n in ((1, 2, 4, 6) if q else (1, 2, 3, 4, 5, 6)):
        out.append(Scenario('one step:%d' % n, sequence(n, 1), setup=asym, max_paths=2000))
    for op in OPS[1:5] + OPS[-4:]:
        out.append(Scenario('two steps:%s' % op, sequence(3, 2, op), setup=asym, max_paths=20000))
    for n, op in [(3, o) for o in OPS[:5]] + ([(4, o) for o in OPS] if not q else []):
        for op2 in OPS[1:5]:
            if op != 'get' and (not q or (op in ('del', 'insert') and op2 in ('set', 'del', 'insert'))):
                out.append(Scenario('three steps:%d:%s:%s' % (n, op, op2), sequence(n, 3, op, op2), setup=asym, max_paths=20000))
    out.append(Scenario('twelve legs', twelve(), setup=asym, max_paths=2000))
    out.append(Scenario('errors', errors(), setup=asym))
    return out
