from check import *
from checks.ecdsa import crv
from checks.curve import keep
S = 'point.cpp'
R = 'value graph over the field primitives equals the group law of the curve'
RT = 'constant of the program equals the multiple of the generator computed from the curve equation'
P = 2**256 - 2**32 - 977
import itertools
_tick = itertools.count()


def bnarg(I, st, p, off, name):
    I.store(st, at(p, off), f('bn_be', 288, sym(name, 256)))


def pts(c, *names):
    """points with canonical coordinates"""
    def su(I, st, a):
        for n in names:
            p = c.L.arg(n)
            bnarg(I, st, p, 0, n + '.x')
            bnarg(I, st, p, 36, n + '.y')
        return a
    return su


def onc(*names):
    pc = TRUE
    for n in names:
        x, y = sym(n + '.x', 256), sym(n + '.y', 256)
        pc = AND(pc, OR(atom('oncurve', x, y), AND(eq(x, C(0, 256)), eq(y, C(0, 256)))))
    return pc


@obligation('P12', 'affine points', S, R)
def _(c):
    L = c.L
    p, q, k = L.arg('p'), L.arg('q'), crv(L)
    su = pts(c, 'p', 'q')
    c.equiv('@point_is_infinity', 'spec_is_inf', [p], RET, setup=su)
    c.equiv('@point_is_equal', 'spec_is_eq', [p, q], RET, setup=su)
    c.equiv('@point_is_negative_of', 'spec_is_neg', [p, q], RET, setup=su, pc=onc('p', 'q'))
    c.equiv('@point_double', 'spec_double', [k, p], lambda v, s, I, a: [('point', I.load(s, p, 72))], sargs=[p], setup=su, pc=onc('p'))
    c.equiv('@point_add', 'spec_add', [k, p, q], lambda v, s, I, a: [('point', I.load(s, q, 72)), ('first operand', I.load(s, p, 72))], sargs=[p, q], setup=su, pc=onc('p', 'q'))
    for nm, y in (('equal', sym('p.y', 256)), ('opposite', f('fneg', 256, sym('p.y', 256)))):
        def su2(I, st, a):
            pts(c, 'p')(I, st, a)
            I.store(st, q, f('bn_be', 288, sym('p.x', 256)))
            I.store(st, at(q, 36), f('bn_be', 288, y))
            return a
        c.equiv('@point_add', 'spec_add', [k, p, q], lambda v, s, I, a: [('point', I.load(s, q, 72))], sargs=[p, q], setup=su2, pc=onc('p'), item='point_add, %s points' % nm)
    c.equiv('@point_copy', 'spec_copy', [p, q], lambda v, s, I, a: [('point', I.load(s, q, 72))], setup=su)
    c.equiv('@point_set_infinity', 'spec_set_inf', [p], lambda v, s, I, a: [('point', I.load(s, p, 72))], setup=su)


def jac(I, st, p, n, xy=None):
    x, y, z = sym(n + '.x', 256), sym(n + '.y', 256), sym(n + '.z', 256)
    if xy:
        x, y = xy
    I.store(st, p, f('jacx', 288, x, z))
    I.store(st, at(p, 36), f('jacy', 288, y, z))
    I.store(st, at(p, 72), f('bn_be', 288, z))


def jobs(o):
    return lambda v, s, I, a: [('point', f('jac_affine', 576, I.load(s, o, 108)))]


@obligation('P12', 'projective points', S, R)
def _(c):
    L = c.L
    p, j, k, z = L.arg('p'), L.arg('j'), crv(L), L.arg('z')
    prime = k
    nz = NOT(eq(sym('j.z', 256), C(0, 256)))
    pc = AND(atom('oncurve', sym('p.x', 256), sym('p.y', 256)), atom('oncurve', sym('j.x', 256), sym('j.y', 256)), nz)

    def su(I, st, a):
        pts(c, 'p')(I, st, a)
        jac(I, st, j, 'j')
        return a
    c.equiv('@point_jacobian_add', 'spec_jac_add', [p, j, k], jobs(j), sargs=[p, j], setup=su, pc=pc)
    for nm, y in (('equal', sym('p.y', 256)), ('opposite', f('fneg', 256, sym('p.y', 256)))):
        def su2(I, st, a):
            pts(c, 'p')(I, st, a)
            jac(I, st, j, 'j', (sym('p.x', 256), y))
            return a
        c.equiv('@point_jacobian_add', 'spec_jac_add', [p, j, k], jobs(j), sargs=[p, j], setup=su2, pc=AND(atom('oncurve', sym('p.x', 256), sym('p.y', 256)), nz), item='point_jacobian_add, %s points' % nm)
    c.equiv('@point_jacobian_double', 'spec_jac_double', [j, k], jobs(j), sargs=[j], setup=su, pc=pc)
    c.equiv('@jacobian_to_curve', 'spec_unjac', [j, p, prime], lambda v, s, I, a: [('point', I.load(s, p, 72))], sargs=[j, p], setup=su, pc=pc)

    def su3(I, st, a):
        pts(c, 'p')(I, st, a)
        I.store(st, z, f('bn_be', 288, sym('j.z', 256)))
        return a
    c.equiv('@curve_to_jacobian', 'spec_jac', [p, j, prime], jobs(j), sargs=[p, z, j], setup=su3, pc=AND(atom('oncurve', sym('p.x', 256), sym('p.y', 256)), nz),
            models={'@generate_k_random': lambda I, a, st, ins: (I.store(st, a[0], f('bn_be', 288, sym('j.z', 256)), ins), C(0, 8))[1]})


def raw(nm, sp, o, table=False):
    """summary as an uninterpreted function of the operands, kept joined"""
    n = int(re.sub(r'\D', '', sp[o]))

    def model(I, a, st, ins):
        p = aspt(a[0]) if sp[0] == 'i72' else None
        tab = None
        if p is not None and table:
            objs = set()
            off = lift1(('offset', next(_tick)), lambda q: (objs.add(q.a[0]), q.a[1])[1], p)
        if p is not None and table and len(objs) == 1 and off.op != 'c':
            tab = f('table8', 576, off, *[I.load(st, mkptr(list(objs)[0], C(72 * i, 64)), 72, ins) for i in range(8)])
        v = [tab if tab is not None and x is a[0] else x if x_ == 'v' else I.load(st, x, int(re.sub(r'\D', '', x_)), ins) for x_, x in zip(sp, a) if x_[0] != 'o']
        I.store(st, a[o], f('%s.%d' % (nm, o), 8 * n, *v), ins)
        return C(0, 8)
    return model


@obligation('P12', 'point times scalar', S, R)
def _(c):
    L = c.L
    def mods(table):
        return {'@' + nm: raw(nm, sp, o, table) for nm, sp, o in (
            ('curve_to_jacobian', ['i72', 'o108', 'i36'], 1), ('jacobian_to_curve', ['i108', 'o72', 'i36'], 1), ('point_jacobian_add', ['i72', 'io108', 'v'], 1),
            ('point_jacobian_double', ['io108', 'v'], 0), ('conditional_negate', ['v', 'io36', 'i36'], 1))}
    p, r, b, k = L.arg('p'), L.arg('r'), L.arg('k'), crv(L)
    ks = [sym('k%d' % i, 32) for i in range(9)]
    lim = TRUE
    for i in range(8):
        lim = AND(lim, ult(ks[i], C(1 << 30, 32)))
    N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
    lim = AND(lim, ult(ks[8], C(N >> 240, 32)))           # below the order, top limb decides

    def su(only):
        def g(I, st, a):
            I.store(st, p, f('gmul', 576, sym('point', 32)))
            for i in range(9):
                I.store(st, at(b, 4 * i), ks[i] if only is None or i == only else C(0, 32))
            return a
        return g
    ob = lambda v, s, I, a: [('point', I.load(s, r, 72))]
    for only in (None, 0, 1, 8):
        t = '' if only is None else ', only limb %d' % only
        c.equiv('@point_multiply', 'spec_pmul', [k, b, p, r], ob, sargs=[b, p, r], setup=su(only), pc=lim, real=True, models=mods(True), item='point_multiply' + t)
        c.equiv('@scalar_multiply', 'spec_smul', [k, b, r], ob, sargs=[b, r], setup=su(only), pc=lim, real=True, models=mods(False), item='scalar_multiply' + t)


@obligation('P12', 'curve constants', S, RT)
def _(c):
    import sem
    L = c.L
    I, st = L.interp(), State()
    g = crv(L)
    fl = L.mod.fields('ecdsa_curve')
    loc = 'src/utility/trezor/secp256k1.c'

    def num(off, name, want):
        v = I.load(st, at(g, off), 36)
        if v.op != 'c':
            return c.unknown(name, 'not a constant', loc)
        limbs = [(v.a[0] >> 32 * i) & 0xffffffff for i in range(9)]
        x = sum(l << 30 * i for i, l in enumerate(limbs))
        c.expect(x == want and all(l < 1 << 30 for l in limbs), name, '%x, expected %x' % (x, want), loc)
    G, N = sem.RG, sem.RN
    num(fl['prime'][0], 'field prime', P)
    num(fl['order'][0], 'group order', N)
    num(fl['order_half'][0], 'half of the order', N // 2)
    num(fl['b'][0], 'b', 7)
    num(fl['G'][0], 'generator x', G[0])
    num(fl['G'][0] + 36, 'generator y', G[1])
    a = I.load(st, at(g, fl['a'][0]), 4)
    c.expect(a is C(0, 32), 'a', 'curve parameter a is not 0', loc)
    if 'cp' in fl:
        o = fl['cp'][0]
        B = G
        for i in range(64):
            D, q = sem.padd(B, B), B
            for j in range(8):
                num(o + 72 * (8 * i + j), 'table %d,%d x' % (i, j), q[0])
                num(o + 72 * (8 * i + j) + 36, 'table %d,%d y' % (i, j), q[1])
                q = sem.padd(q, D)
            for _ in range(4):
                B = sem.padd(B, B)
