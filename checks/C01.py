"""C01: whatever representation of a particle is assigned, all the others follow."""
import itertools
import numpy
import oracle as O
from checks.common import *   # noqa
from harness import Scenario

SET = ['r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u', 'r2_sp', 'r2_sp_b', 'four_mom', 'four_mom_d']
BOUNDS = ("one particle; construction from spinors, rank-two spinor or four momentum, and at random; then assignment histories of length 1 and 2 (3 in "
          "the thorough tier) over all 8 representations, in both spinor conventions, massless and (last assignment) massive; components symbolic")
OUTSIDE = "longer histories; in-place edits of the arrays behind the setters' back; the rounding error of mpc"
ASSUMPTIONS = STD + ["massless assignments have P0+P3 != 0 (the documented chart of the spinor parametrisation); P0+P3 = 0 is covered separately: spinors must be undefined, never stale"]


def assign(H, p, what, tag, massive=False, flat=False):
    """Assign a fresh value to one representation.  Returns the P_dn the particle must then have (None if it depends on old state)."""
    if what in ('r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u'):
        x, y = H.var(tag + 'x'), H.var(tag + 'y')
        shape = (2, 1) if what in ('r_sp_d', 'l_sp_u') else (1, 2)
        v = obj([x, y]) if flat else obj([x, y]).reshape(shape)
        old_r = None if p.r_sp_d is None else [p.r_sp_d[0, 0], p.r_sp_d[1, 0]]
        old_l = None if p.l_sp_d is None else [p.l_sp_d[0, 0], p.l_sp_d[0, 1]]
        setattr(p, what, v)
        if what == 'r_sp_d':
            return O.Pdn([x, y], old_l)
        if what == 'r_sp_u':                      # (b, -a)
            return O.Pdn([-y, x], old_l)
        if what == 'l_sp_d':
            return O.Pdn(old_r, [x, y])
        return O.Pdn(old_r, [-y, x])
    if massive:
        dn = [[H.var(tag + 'm00'), H.var(tag + 'm01')], [H.var(tag + 'm10'), H.var(tag + 'm11')]]
    else:
        r, l = spinor_pair(H, tag)
        dn = O.Pdn(r, l)
    H.assume_nonzero(dn[0][0])                    # P0 + P3
    if what == 'r2_sp':
        p.r2_sp = obj(O.up_of_dn(dn))
    elif what == 'r2_sp_b':
        p.r2_sp_b = obj(dn)
    elif what == 'four_mom':
        p.four_mom = obj(O.four(dn, 1j))
    else:
        f = O.four(dn, 1j)
        p.four_mom_d = obj([f[0], -f[1], -f[2], -f[3]])
    return dn


def history(ws, conv, massive_last=False, flat=False, field='finite field'):
    def body(H):
        import lips
        H.field(field)
        r, l = spinor_pair(H, 'i')
        p = lips.Particle((obj(r).reshape(2, 1), obj(l).reshape(1, 2)), field=H.F)
        if not ws:
            consistent(H, 'constructed', p, mom=O.Pdn(r, l))
        for k, w in enumerate(ws):
            m = massive_last and k == len(ws) - 1
            mom = assign(H, p, w, 's%d' % k, massive=m, flat=flat)
            if k == len(ws) - 1:
                consistent(H, 'after ' + '>'.join(ws), p, massless=not m, mom=mom)
    return body


def construct(kind, conv):
    def body(H):
        import lips
        H.field('mpc')
        if kind == 'four':
            r, l = spinor_pair(H, 'i')
            dn = O.Pdn(r, l)
            H.assume_nonzero(dn[0][0])
            p = lips.Particle(obj(O.four(dn, 1j)), field=H.F)
            consistent(H, 'from four momentum', p, mom=dn)
        elif kind == 'rank2':
            r, l = spinor_pair(H, 'i')
            dn = O.Pdn(r, l)
            H.assume_nonzero(dn[0][0])
            p = lips.Particle(obj(O.up_of_dn(dn)), field=H.F)
            consistent(H, 'from rank-two spinor', p, mom=dn)
        elif kind == 'fourmassive':
            f = [H.var('p%d' % i) for i in range(4)]
            H.assume_nonzero(f[0] + f[3])
            p = lips.Particle(obj(f), field=H.F)
            consistent(H, 'from massive four momentum', p, massless=False, mom=O.dn_of_four(f, 1j))
            H.eq('m2', p.m2, O.mink(f, f))
            H.eq('components', obj([p[k] for k in range(4)]), obj(f))
    return body


def rnd(name):
    def body(H):
        import lips
        H.field(name)
        p = lips.Particle(field=H.F)
        consistent(H, 'random', p)
        H.eq('massless', p.m2, 0)
        p.randomise()
        consistent(H, 'randomised again', p)
        H.eq('massless again', p.m2, 0)
    return body


def singular(kind):
    """P0 + P3 = 0: the symmetric spinor chart does not exist; the particle must not keep spinors of its former momentum."""
    def body(H):
        import lips
        H.field('mpc')
        r, l = spinor_pair(H, 'i')
        p = lips.Particle((obj(r).reshape(2, 1), obj(l).reshape(1, 2)), field=H.F)
        b, d = H.var('b'), H.var('d')
        dn = O.Pdn([0, b], [0, d])
        if kind == 'r2_sp':
            p.r2_sp = obj(O.up_of_dn(dn))
        elif kind == 'r2_sp_b':
            p.r2_sp_b = obj(dn)
        elif kind == 'four_mom':
            p.four_mom = obj(O.four(dn, 1j))
        else:
            f = O.four(dn, 1j)
            p.four_mom_d = obj([f[0], -f[1], -f[2], -f[3]])
        consistent(H, 'momentum along -z', p, massless=False, mom=dn)
        for nm in ('r_sp_d', 'r_sp_u', 'l_sp_d', 'l_sp_u'):
            v = getattr(p, nm)
            H.true('no stale %s' % nm, v is None, 'holds %s' % (v,))
    return body


def tofield():
    """Casting every spinor component into another field carries all representations along."""
    def body(H):
        import lips
        H.field('finite field')
        r, l = spinor_pair(H, 'i')
        p = lips.Particle((obj(r).reshape(2, 1), obj(l).reshape(1, 2)), field=H.F)
        table, log = {}, []

        class Cast(object):                # an arbitrary function of the component
            name, tollerance, characteristic, digits = H.F.name, H.F.tollerance, H.F.characteristic, H.F.digits

            def __call__(self, x):
                k = id(x)
                if k not in table:
                    table[k] = (x, H.var('cast'))
                return table[k][1]

            def sqrt(self, x):
                return H.F.sqrt(x)
        old = [p.r_sp_d[0, 0], p.r_sp_d[1, 0], p.l_sp_d[0, 0], p.l_sp_d[0, 1]]
        f = Cast()
        p.to_field(f)
        new = [f(x) for x in old]
        H.eq('cast components', obj([p.r_sp_d[0, 0], p.r_sp_d[1, 0], p.l_sp_d[0, 0], p.l_sp_d[0, 1]]), obj(new))
        H.true('field updated', p.field is f)
        consistent(H, 'after cast', p, mom=O.Pdn(new[:2], new[2:]))
    return body


def scenarios(tier):
    out = []
    for conv in ('symmetric', 'asymmetric'):
        st = with_convention(conv)
        out.append(Scenario('%s:construct:spinors' % conv, history([], conv), setup=st))
        for k in ('four', 'rank2', 'fourmassive'):
            out.append(Scenario('%s:construct:%s' % (conv, k), construct(k, conv), fields=['mpc'], setup=st))
        depth = 2 if tier == 'quick' else 3
        for n in range(1, depth + 1):
            for ws in itertools.product(SET, repeat=n):
                fl = ['mpc'] if any('four' in w for w in ws) else FIELDS
                out.append(Scenario('%s:set:%s' % (conv, '>'.join(ws)), history(ws, conv), fields=fl, setup=st))
                if n <= 2 and ws[-1] in SET[4:]:
                    out.append(Scenario('%s:massive:%s' % (conv, '>'.join(ws)), history(ws, conv, True), fields=fl, setup=st))
        for w in SET[:4]:
            out.append(Scenario('%s:flat:%s' % (conv, w), history([w], conv, flat=True), setup=st))
        for nm in ('finite field', 'padic', 'rational', 'gaussian rational'):
            out.append(Scenario('%s:random:%s' % (conv, nm), rnd(nm), fields=[nm], setup=st))
    for k in SET[4:]:
        out.append(Scenario('chart:%s' % k, singular(k), fields=['mpc'], setup=with_convention('symmetric')))
    out.append(Scenario('to_field', tofield(), setup=reset))
    return out
