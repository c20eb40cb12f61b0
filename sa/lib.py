"""Library-level set-up for the value-graph analysis of uBitcoin: symbolic call frames typed from
the debug info, devirtualisation, and the function summaries (models) of the primitive layer
(hash cores, big integers, curve points).  Everything above that layer is analysed from source."""
import os, sys, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir as IR
from ir import AnalysisBroken
from terms import *
from streams import *
from interp import *
from interp import _m_memset, _m_strlen, cstr_of
import terms as _T


def bswap(x):
    """byte reversal of a 256-bit (or any) value; involutive"""
    if x.op == 'ite':
        return lift1(('bswap',), bswap, x)
    if x.op == 'c':
        n = x.w // 8
        return C(int.from_bytes(x.a[0].to_bytes(n, 'little'), 'big'), x.w)
    if x.op == 'f' and x.a[0] == 'bswap':
        return x.a[1]
    if x.op == 'cat' or x.w <= 64:
        n = x.w // 8
        return cat([ext(x, 8 * (n - 1 - i), 8) for i in range(n)])
    return f('bswap', x.w, x)


HASH = {'sha256': ('SHA256_CTX', 32), 'sha512': ('SHA512_CTX', 64), 'ripemd160': ('RIPEMD160_CTX', 20)}


def data_of(I, st, p, n, ins=None):
    """stream term for n bytes at p in state st"""
    n = given(n, st.pc)
    if n.op == 'ite' and nleaves(n) <= 32:
        pc0 = st.pc
        x = None
        for c, k in leaves(n):
            st.pc = AND(pc0, c)
            if st.pc is FALSE:
                continue
            y = data_of(I, st, p, k, ins)
            x = y if x is None else ITE(c, y, x)
        st.pc = pc0
        return x if x is not None else EMPTY
    if n.op == 'c' and n.a[0] == 0:
        return EMPTY
    if n.op == 'c' and n.a[0] <= 8192:
        return append(EMPTY, given(I.load(st, p, n.a[0], ins), st.pc))
    x = None
    for cnd, o, off in I.ptr_leaves(st, p):
        if I.on_access and not I.quiet:
            I.on_access('r', st, o, off, n, ins, cnd)
        A = I.obj(st, o).array()
        y = seg(given(A, st.pc), given(off, st.pc), n)
        x = y if x is None else ITE(cnd, y, x)
    if x is None:
        x = mk('str', 0, f('nullseg', 0, n))
    return x


def at_(p, off):
    p = aspt(p)
    if p.op == 'ite':
        return lift1(('at_', off), lambda z: at_(z, off), p)
    return mkptr(p.a[0], add(p.a[1], C(off, 64)))


class Lib:
    def __init__(self, extra=(), repo='/repo', defs=(), mod=None):
        self.mod = mod or IR.build(repo, extra=list(extra), defs=defs)
        self.dem = IR.demangle(list(self.mod.funcs))
        self.byname = {}
        for k, v in self.dem.items():
            self.byname.setdefault(v, k)
        self.otypes = {}
        self.models = {}
        self._hash_models()
        self._bn_models()
        self._string_models()
        self.slotmodels = {}

    # ---------------------------------------------------------------- std::string (content only)
    def _string_models(self):
        S = 'St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'

        def from_cstr(I, a, st, ins):
            r = None
            for cnd, ob, off in I.ptr_leaves(st, a[1]):
                if off is not C(0, 64):
                    raise Unsupported('string from the middle of an object')
                src = I.obj(st, ob)
                q = I.new_obj(st, 'heap', src.size, 'string', None, ('string', ins))
                o = st.w(q)
                o.base, o.cells = src.base, dict(src.cells)
                k = cstr_of(I, st, mkptr(ob, off))
                if k is not None:
                    o.base, o.cells = AZERO, {i: (C(b, 8), 0) for i, b in enumerate(k)}
                q = mkptr(q, C(0, 64))
                r = q if r is None else ITE(cnd, q, r)
            if r is None:
                raise Unsupported('string from null')
            I.store(st, a[0], r, ins)
            return C(0, 8)

        def copy(I, a, st, ins):
            I.store(st, a[0], I.load(st, a[1], 8, ins), ins)
            return C(0, 8)

        def data(I, a, st, ins):
            return I.load(st, a[0], 8, ins)

        def length(I, a, st, ins):
            return I.models.get('@strlen', _m_strlen)(I, [I.load(st, a[0], 8, ins)], st, ins)

        def nop(I, a, st, ins):
            return C(0, 8)
        m = self.models
        m['@_ZN' + S + 'C2IS3_EEPKcRKS3_'] = m['@_ZN' + S + 'C1IS3_EEPKcRKS3_'] = from_cstr
        for k in ('C1ERKS4_', 'C2ERKS4_', 'C1EOS4_', 'C2EOS4_'):
            m['@_ZN' + S + k] = copy
        for k in ('5c_strEv', '4dataEv'):
            m['@_ZNK' + S + k] = data
        for k in ('6lengthEv', '4sizeEv'):
            m['@_ZNK' + S + k] = length
        for k in ('@_ZN' + S + 'D1Ev', '@_ZN' + S + 'D2Ev', '@_ZNSt15__new_allocatorIcED2Ev', '@_ZNSt15__new_allocatorIcEC2Ev', '@_ZNSaIcED1Ev', '@_ZNSaIcEC1Ev'):
            m[k] = nop

    # ---------------------------------------------------------------- lookup
    def fn(self, sig):
        """mangled name for demangled signature (spaces insensitive)"""
        k = sig.replace(' ', '')
        if not hasattr(self, '_idx'):
            self._idx = {v.replace(' ', ''): k2 for k2, v in self.dem.items()}
        r = self._idx.get(k)
        if r is None:
            raise AnalysisBroken('public entry point not found: ' + sig)
        return r

    def has(self, sig):
        try:
            self.fn(sig)
            return True
        except AnalysisBroken:
            return False

    def interp(self, models=None, **kw):
        m = dict(self.models)
        m.update(models or {})
        m = {k: v for k, v in m.items() if v is not None}
        I = Interp(self.mod, m, devirt=self.devirt, **kw)
        I.lib = self
        I.ginit = {'@GeneratorPoint': lambda I: self._pointobj(I, f('gen', 512)),
                   '@InfinityPoint': lambda I: self._pointobj(I, C(0, 512))}
        return I

    def _pointobj(self, I, xy):
        # dynamically initialised curve constants (their initialisers are checked separately)
        o = O(mk('azero', 0), C(self._csize('ECPoint'), 64), -1)
        fl = self.mod.fields('ECPoint')
        vt = mkptr(('g', '@_ZTV7ECPoint'), C(16, 64))
        for off, v in ((0, vt), (fl['point'][0], xy), (fl['compressed'][0], C(1, 8))):
            for k in range(v.w // 8):
                o.cells[off + k] = (v, k)
        return o

    # ---------------------------------------------------------------- typed memory
    def arg(self, name, cls=None):
        s = sym(name, 64)
        if cls:
            self.otypes[s] = self.mod.class_id(cls)
        return s

    def obj_type(self, I, obj):
        if obj[0] == 'pt':
            p = obj[1]
            if p in self.otypes:
                return self.otypes[p]
            if p.op == 'sel':
                base = self._root(p.a[0])
                if base is None:
                    return None
                t = self.obj_type(I, base)
                if t is None:
                    return None
                off = p.a[1]
                sz = self.mod._dsize(t)
                ko = self._modoff(off, sz)
                if ko is None:
                    return None
                ch = self.mod.type_at(t, ko)
                return self.mod.pointee(ch[-1][0])
        return None

    def _root(self, A):
        while A.op in ('acells', 'astore', 'aset', 'acopy'):
            A = A.a[0]
        if A.op == 'asym':
            return A.a[0]
        return None

    def _modoff(self, off, sz):
        if off.op == 'c':
            return off.a[0] % sz if sz else off.a[0]
        # c + sum k*x with sz | k
        if off.op == 'lin':
            c, ps = off.a
            if sz and all(k % sz == 0 for _, k in ps):
                return c % sz
        return None

    def devirt(self, I, q, args, ins, st):
        if q.op != 'sel':
            return None
        V = q.a[0]
        if V.op != 'asym' or V.a[0][0] != 'pt':
            return None
        if q.a[1].op != 'c' or q.a[1].a[0] % 8:
            return None
        slot = q.a[1].a[0] // 8
        v = V.a[0][1]
        if v.op != 'sel':
            return None
        o = self._root(v.a[0])
        if o is None:
            return None
        t = self.obj_type(I, o)
        if t is None:
            return None
        ko = self._modoff(v.a[1], self.mod._dsize(t))
        if ko is None:
            return None
        for mid, within in self.mod.type_at(t, ko):
            cn = self.mod.class_name(mid)
            if within == 0 and cn and (cn, slot) in self.slotmodels:
                return self.slotmodels[(cn, slot)]
            if within == 0 and cn and self.mod.has_vptr(cn):
                r = self.mod.vslot(cn, slot)
                if r and not r.startswith('@__cxa_pure'):
                    return r
        return None

    # ---------------------------------------------------------------- hash layer
    def _csize(self, cls):
        return self.mod._dsize(self.mod.class_id(cls))

    def _hash_models(self):
        m = self.models
        for kind, (cls, dl) in HASH.items():
            try:
                size = self._csize(cls)
            except AnalysisBroken:
                continue
            self._mk_hash(m, kind, size, dl)
        m['@memzero'] = lambda I, a, st, ins: _m_memset(I, [a[0], C(0, 8), a[1]], st, ins)

    def _mk_hash(self, m, kind, size, dl):
        def getctx(I, st, p, ins):
            v = I.load(st, p, size, ins)
            return lift1(('gctx', kind), lambda z: z if z.op == 'hctx' else hctx(kind, size, mk('str', 0, mk('hst', 0, z))), v)

        def digest(s):
            return lift1(('dig', kind), lambda z: f(kind, 8 * dl, z), s)

        def init(I, a, st, ins):
            I.store(st, a[0], hctx(kind, size, EMPTY), ins)
            return C(0, 8)

        def update(I, a, st, ins):
            n = zext(a[2], 64)
            n = given(n, st.pc)
            c = getctx(I, st, a[0], ins)
            s = lift1(('hs',), lambda h: h.a[1], c)
            x = data_of(I, st, a[1], n, ins)
            if x is EMPTY:
                return C(0, 8)
            x = given(x, st.pc)
            I.store(st, a[0], hctx(kind, size, append(s, x)), ins)
            return C(0, 8)

        def final(I, a, st, ins):
            c = getctx(I, st, a[0], ins)
            s = lift1(('hs',), lambda h: h.a[1], c)
            null = a[1].op == 'c'
            if not null:
                I.store(st, a[1], digest(given(s, st.pc)), ins)
            I.store(st, a[0], C(0, 8 * size), ins)
            return C(0, 8)

        def raw(I, a, st, ins):
            n = zext(a[1], 64)
            o = I.new_obj(st, 'st', C(size, 64), 'ctx')
            p = mkptr(o, C(0, 64))
            init(I, [p], st, ins)
            update(I, [p, a[0], n], st, ins)
            final(I, [p, a[2]], st, ins)
            del st.mem[o]
            return C(0, 8)
        P = kind
        m['@%s_Init' % P] = init
        m['@%s_Update' % P] = update
        m['@%s_Final' % P] = final
        m['@%s_Raw' % P] = raw
        if kind == 'ripemd160':
            m['@ripemd160'] = raw
        if kind != 'ripemd160':
            ns = 8 if kind == 'sha256' else 8
            word = 4 if kind == 'sha256' else 8

            def transform(I, a, st, ins):
                x = I.load(st, a[0], 8 * word, ins)
                y = I.load(st, a[1], 16 * word, ins)
                I.store(st, a[2], f(kind + '_T', 64 * word, x, y), ins)
                return C(0, 8)
            m['@%s_Transform' % P] = transform

    # ---------------------------------------------------------------- pure summaries
    def pure(self, name, spec, ret=0, comm=None):
        """name: C function; spec: string per argument: 'i'/'o'/'io' + size, or 'v' for a value"""
        def model(I, a, st, ins):
            vals = []
            for s, x in zip(spec, a):
                if s == 'v':
                    vals.append(given(x, st.pc))
                elif s[0] == 'i':
                    n = int(re.search(r'\d+', s).group(0))
                    vals.append(given(I.load(st, x, n, ins), st.pc))
            for k, (s, x) in enumerate(zip(spec, a)):
                if s[0] in 'oi' and 'o' in s:
                    n = int(re.search(r'\d+', s).group(0))
                    v = self.alg(name, k, 8 * n, vals)
                    I.store(st, x, v, ins)
            if ret == 0:
                return C(0, 8)
            return self.alg(name, 'r', ret, vals)
        self.models['@' + name] = model

    def alg(self, name, k, w, vals):
        h = getattr(self, '_alg_' + name, None)
        if h is not None and k != 'r':
            r = h(k, w, vals)
            if r is not None:
                return r
        if any(v.op == 'ite' for v in vals):
            at = top(*vals)
            g = lambda b: self.alg(name, k, w, [cof(v, at, b) for v in vals])
            x = node(at, TRUE, FALSE)
            return ITE(x, g(1), g(0))
        if w == 1:
            return atom('p_' + name, *vals)
        return f(name + ('' if k == 'r' else '.%s' % k), w, *vals)

    def _bn_models(self):
        p = self.pure
        bn = 36
        m = self.models
        # value <-> bytes
        def unbn(v):
            """bytes term of a bignum known to come from bytes, else None"""
            return v.a[1] if v.op == 'f' and v.a[0] == 'bn_be' else None

        def read_be(I, a, st, ins):
            x = I.load(st, a[0], 32, ins)
            def g(z):
                if z.op == 'f' and z.a[0] == 'be_bn':
                    return z.a[1]
                return f('bn_be', 288, z)
            I.store(st, a[1], lift1(('bn_be',), g, x), ins)
            return C(0, 8)

        def write_be(I, a, st, ins):
            x = I.load(st, a[0], 36, ins)
            def g(z):
                b = unbn(z)
                if b is not None:
                    return b
                return f('be_bn', 256, z)
            I.store(st, a[1], lift1(('be_bn',), g, x), ins)
            return C(0, 8)
        m['@bn_read_be'] = read_be
        m['@bn_write_be'] = write_be

        def const_bn(v):
            def w(I, a, st, ins):
                I.store(st, a[0], f('bn_be', 288, C(int.from_bytes(v.to_bytes(32, 'big'), 'little'), 256)), ins)
                return C(0, 8)
            return w
        m['@bn_zero'] = const_bn(0)
        m['@bn_one'] = const_bn(1)

        def norm(v):
            # constant limb images -> byte form
            if v.op == 'c' and v.w == 288:
                x = 0
                for i in range(9):
                    x += ((v.a[0] >> (32 * i)) & 0xffffffff) << (30 * i)
                if x < 1 << 256:
                    return f('bn_be', 288, C(int.from_bytes(x.to_bytes(32, 'big'), 'little'), 256))
            return v
        self.bnnorm = norm

        def is_zero(I, a, st, ins):
            x = given(I.load(st, a[0], 36, ins), st.pc)
            def g(z):
                b = unbn(norm(z))
                if b is not None:
                    return zext(eq(b, C(0, 256)), 32)
                return zext(atom('bnz', z), 32)
            return lift1(('bnz',), g, x)
        m['@bn_is_zero'] = is_zero

        def is_less(I, a, st, ins):
            x = given(I.load(st, a[0], 36, ins), st.pc)
            y = given(I.load(st, a[1], 36, ins), st.pc)
            def g(u, v):
                u, v = norm(u), norm(v)
                if u is v:
                    return C(0, 32)
                return zext(atom('bnlt', u, v), 32)
            return lift2('bnlt', g, x, y)
        m['@bn_is_less'] = is_less

        def is_equal(I, a, st, ins):
            x = given(I.load(st, a[0], 36, ins), st.pc)
            y = given(I.load(st, a[1], 36, ins), st.pc)
            def g(u, v):
                u, v = norm(u), norm(v)
                if u is v:
                    return C(1, 32)
                bu, bv = unbn(u), unbn(v)
                if bu is not None and bv is not None:
                    return zext(eq(bu, bv), 32)
                if u.id > v.id:
                    u, v = v, u
                return zext(atom('bneq', u, v), 32)
            return lift2('bneq', g, x, y)
        m['@bn_is_equal'] = is_equal

        def cmov(I, a, st, ins):
            c = a[1]
            x = I.load(st, a[2], 36, ins)
            y = I.load(st, a[3], 36, ins)
            I.store(st, a[0], ITE(NOT(eq(c, C(0, c.w))), x, y), ins)
            return C(0, 8)
        m['@bn_cmov'] = cmov
        # arithmetic: uninterpreted pure functions of the operands
        self._pure_ret_norm = True
        for nm, sp in [('bn_mod', ['io36', 'i36']), ('bn_fast_mod', ['io36', 'i36']), ('bn_normalize', ['io36']),
                       ('bn_mult_half', ['io36', 'i36']), ('bn_mult_k', ['io36', 'v', 'i36']),
                       ('bn_inverse', ['io36', 'i36']), ('bn_sqrt', ['io36', 'i36']),
                       ('bn_addi', ['io36', 'v']), ('bn_subi', ['io36', 'v', 'i36']),
                       ('bn_subtract', ['i36', 'i36', 'o36']), ('bn_subtractmod', ['i36', 'i36', 'o36', 'i36']),
                       ('bn_rshift', ['io36']), ('bn_lshift', ['io36']), ('bn_xor', ['o36', 'i36', 'i36']),
                       ('bn_setbit', ['io36', 'v']), ('bn_clearbit', ['io36', 'v'])]:
            p(nm, sp)
        self.pure_comm('bn_multiply', ['i36', 'io36', 'i36'], (0, 1), 1)
        self.pure_comm('bn_add', ['io36', 'i36'], (0, 1), 0)
        self.pure_comm('bn_addmod', ['io36', 'i36', 'i36'], (0, 1), 0)
        p('bn_testbit', ['i36', 'v'], 32)
        p('bn_bitcount', ['i36'], 32)
        # points: curve_point = 2 bignums (72 bytes); curve arg is the ecdsa_curve constant
        p('point_add', ['v', 'i72', 'io72'])
        p('point_double', ['v', 'io72'])
        p('point_multiply', ['v', 'i36', 'i72', 'o72'])
        p('scalar_multiply', ['v', 'i36', 'o72'])
        for nm in ('point_is_infinity',):
            self._pred(nm, ['i72'])
        self._pred('point_is_equal', ['i72', 'i72'])
        self._pred('point_is_negative_of', ['i72', 'i72'])

    def _onx(self, x):
        # x coordinate produced by a group operation on valid inputs: on the curve
        def g(z):
            if z.op == 'f' and z.a[0] == 'be_bn' and z.a[1].op == 'ext':
                y = z.a[1].a[0]
                if y.op == 'f' and y.a[0].split('.')[0] in ('scalar_multiply', 'point_multiply', 'point_add') and z.a[1].a[1] == 0:
                    return TRUE
            if z.op == 'c':
                P = 2**256 - 2**32 - 977
                x = int.from_bytes(z.a[0].to_bytes(32, 'little'), 'big')
                return TRUE if x < P and pow(x ** 3 + 7, (P - 1) // 2, P) == 1 else FALSE
            return atom('onx', z)
        return lift1(('onx',), g, x)

    def sec_models(self):
        """SEC decoding as a primitive (its definition is the subject of the public-key property)"""
        def read(I, a, st, ins):
            pre = given(I.load(st, a[1], 1, ins), st.pc)
            pc0 = st.pc
            x = given(I.load(st, at_(a[1], 1), 32, ins), pc0)
            four = eq(pre, C(4, 8))
            comp = OR(eq(pre, C(2, 8)), eq(pre, C(3, 8)))
            res = FALSE
            px = self._bnbe(x)
            out = None
            if AND(pc0, four) is not FALSE:
                st.pc = AND(pc0, four)
                y = given(I.load(st, at_(a[1], 33), 32, ins), st.pc)
                st.pc = pc0
                res = OR(res, AND(four, lift2('oncurve', lambda u, v: atom('oncurve', u, v), x, y)))
                out = cat([px, self._bnbe(y)])
            if AND(pc0, comp) is not FALSE:
                par = band(pre, C(1, 8))
                o2 = cat([px, lift2('lift', lambda u, v: f('lift', 288, u, v), x, par)])
                res = OR(res, AND(comp, self._onx(x)))
                out = o2 if out is None else ITE(four, out, o2)
            if out is not None:
                old = I.load(st, a[2], 72, ins)
                I.store(st, a[2], ITE(OR(four, comp), out, old), ins)
            return zext(res, 32)
        return {'@ecdsa_read_pubkey': read}

    def _bnbe(self, x):
        def g(z):
            if z.op == 'f' and z.a[0] == 'be_bn':
                return z.a[1]
            return f('bn_be', 288, z)
        return lift1(('bn_be',), g, x)

    def _pred(self, nm, sp):
        def model(I, a, st, ins):
            vals = [given(I.load(st, x, int(s[1:]), ins), st.pc) for s, x in zip(sp, a)]
            return zext(self.alg(nm, 'r', 1, vals), 32)
        self.models['@' + nm] = model

    def pure_comm(self, name, spec, pair, out):
        base = self.pure

        def model(I, a, st, ins):
            vals = []
            for s, x in zip(spec, a):
                n = int(re.search(r'\d+', s).group(0))
                vals.append(self.bnnorm(given(I.load(st, x, n, ins), st.pc)))
            I.store(st, a[out], self._comm(name, pair, vals), ins)
            return C(0, 8)
        self.models['@' + name] = model

    def _comm(self, name, pair, vals):
        if any(v.op == 'ite' for v in vals):
            at = top(*vals)
            x = node(at, TRUE, FALSE)
            return ITE(x, self._comm(name, pair, [cof(v, at, 1) for v in vals]), self._comm(name, pair, [cof(v, at, 0) for v in vals]))
        vals = list(vals)
        i, j = pair
        if vals[i].id > vals[j].id:
            vals[i], vals[j] = vals[j], vals[i]
        return f(name, 288, *vals)


def run(L, sig, args, pc=TRUE, st=None, models=None, **kw):
    I = L.interp(models, **kw)
    st = st or State()
    st.pc = pc
    v, s = I.call(L.fn(sig) if not sig.startswith('@') else sig, args, st)
    return v, s, I
