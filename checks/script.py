from check import *
from lib import data_of
from interp import _m_memcpy, _m_strlen
MEMCPY = ('@memcpy', '@llvm.memcpy.p0.p0.i64')
from checks.hd import spec, fields
from checks.curve import fo, flags, keep
S = 'script.cpp'
RS = 'value graph of the script bytes equals the reference script'
RA = 'value graph equals the reference address mapping (Base58Check and Bech32 codecs summarised)'


def scobs(c, out, cls='Script'):
    L = c.L

    def obs(v, s, I, a):
        if getattr(I, 'specside', False):
            n, p = I.load(s, out, 8), at(out, 8)
        else:
            n, p = I.load(s, at(out, fo(L, cls, 'scriptLen')[0]), 8), I.load(s, at(out, fo(L, cls, 'scriptArray')[0]), 8)
        return [('length', n), ('bytes', data_of(I, s, p, given(n, s.pc)))]
    return obs


def comp(c, o, k, cls='PublicKey'):
    return eq(c.L.interp().load(State(), at(o, fo(c.L, cls, 'compressed')[0]), 1), C(k, 8))


@obligation('P13', 'key scripts', S, RS)
def _(c):
    L = c.L
    out, p = L.arg('out'), L.arg('pub', 'PublicKey')
    pc = flags(c, p, cls='PublicKey')
    for sig, sp in (('pkh(PublicKey)', 'spec_pkh'), ('wpkh(PublicKey)', 'spec_wpkh')):
        c.equiv(sig, sp, [out, p], scobs(c, out), pc=pc, setup=keep, setup2=spec())
    t = sym('type', 32)
    c.equiv('Script::Script(PublicKey, ScriptType)', 'spec_pubkey_script', [out, p, t], scobs(c, out), pc=pc, setup=keep, setup2=spec())
    c.equiv('PublicKey::script(ScriptType) const', 'spec_pubkey_script', [out, p, t], scobs(c, out), pc=pc, setup=keep, setup2=spec())


@obligation('P13', 'script hashes', S, RS)
def _(c):
    L = c.L
    out, p = L.arg('out'), L.arg('script', 'Script')
    for sig, sp in (('sh(Script)', 'spec_sh'), ('wsh(Script)', 'spec_wsh')):
        c.equiv(sig, sp, [out, p], scobs(c, out), setup=keep, setup2=spec())
    t = sym('type', 32)
    c.equiv('Script::Script(Script const&, ScriptType)', 'spec_script_script', [out, p, t], scobs(c, out), setup=keep, setup2=spec())
    c.equiv('Script::scriptPubkey(ScriptType) const', 'spec_script_script', [out, p, t], scobs(c, out), setup=keep, setup2=spec())


@obligation('P13', 'classification', S, RS)
def _(c):
    p = c.L.arg('script', 'Script')
    c.equiv('Script::type() const', 'spec_type', [p], RET)


def keys(c, n):
    L = c.L
    k = L.arg('keys', 'PublicKey')
    sz = L._csize('PublicKey')
    return k, [at(k, sz * i) for i in range(n)]


@obligation('P13', 'multisig', S, RS)
def _(c):
    L = c.L
    out = L.arg('out')
    m = sym('m', 8)
    for n in list(range(0, 17 if c.tier != 'quick' else 6)) + ([15, 16] if c.tier == 'quick' else []) + [17, 255]:
        k, ks = keys(c, min(n, 17))
        pc = TRUE
        if 0 < n <= 16:
            for q in ks:
                pc = AND(pc, comp(c, q, 1))
        c.equiv('multi(unsigned char, PublicKey const*, unsigned char)', 'spec_multi', [out, m, k, C(n, 8)], scobs(c, out), pc=pc, setup=keep, setup2=spec(), item='multi, %d keys' % n)
    for n in (1, 2):
        k, ks = keys(c, n)
        c.equiv('multi(unsigned char, PublicKey const*, unsigned char)', 'spec_multi', [out, m, k, C(n, 8)], scobs(c, out), pc=flags(c, *ks, cls='PublicKey'), setup=keep, setup2=spec(), item='multi, %d keys of any form' % n)


def sortperm(n):
    import itertools

    @obligation('P13', 'sorted multisig, %d keys' % n, S, RS)
    def _(c):
        L = c.L
        out, pm = L.arg('out'), L.arg('perm')
        m = sym('m', 8)
        k, ks = keys(c, n)
        mixed(c, n, (1,) * n, out, pm, m, k, ks)
        for kind in {2: ((0, 1), (1, 0)), 3: ((0, 1, 1), (1, 0, 1), (1, 1, 0))}.get(n, ()):
            mixed(c, n, kind, out, pm, m, k, ks)

    def mixed(c, n, kind, out, pm, m, k, ks):
        L = c.L
        base = TRUE
        for q, z in zip(ks, kind):
            base = AND(base, comp(c, q, z))
        less = {}
        for i in range(n):
            for j in range(n):
                if i != j:
                    st = State()
                    st.pc = base
                    less[i, j] = given(L.interp().call('@spec_key_less', [ks[i], ks[j]], st)[0], base)
        perms = list(itertools.permutations(range(n)))
        if n > 3:
            perms = [p for i, p in enumerate(perms) if i % (5 if c.tier == 'quick' else 1) == 0]
        for pr in perms:
            pc = base
            for x in range(n):
                for y in range(x + 1, n):
                    pc = AND(pc, less[pr[x], pr[y]], NOT(less[pr[y], pr[x]]))
            if pc is FALSE:
                continue

            def su2(I, st, a):
                I.specside = True
                I.store(st, pm, cat([C(x, 8) for x in pr]))
                return a
            c.equiv('sortedmulti(unsigned char, PublicKey const*, unsigned char)', 'spec_multi_order', [out, m, k, C(n, 8)], scobs(c, out), sargs=[out, m, k, pm, C(n, 8)],
                    pc=pc, setup=keep, setup2=su2, item='sortedmulti, order ' + '<'.join(map(str, pr)) + ('' if all(kind) else ', keys %s uncompressed' % [i for i in range(n) if not kind[i]]))


for _n in (2, 3, 4):
    sortperm(_n)


@obligation('P13', 'sorted multisig bounds', S, RS)
def _(c):
    L = c.L
    out = L.arg('out')
    m = sym('m', 8)
    for n in (0, 1, 17, 200):
        k, ks = keys(c, 1)
        pc = comp(c, ks[0], 1) if n == 1 else TRUE
        c.equiv('sortedmulti(unsigned char, PublicKey const*, unsigned char)', 'spec_multi', [out, m, k, C(n, 8)], scobs(c, out), pc=pc, setup=keep, setup2=spec(), item='sortedmulti, %d keys' % n)


# ---------------------------------------------------------------- pushes
def push(item, cls, sig, sp, mk):
    @obligation('P13', item, S, 'value graph of the resulting bytes equals old bytes followed by the reference push')
    def _(c):
        L = c.L
        o, out, heap = L.arg('obj', cls), L.arg('out'), L.arg('old_bytes')
        fl = fields(L, cls)
        ln, ar = ('scriptLen', 'scriptArray') if cls == 'Script' else ('witnessLen', 'witnessArray')

        def run(n0, args, pc, tag, pre=None):
            def su(I, st, a):
                I.store(st, at(o, fl[ln][0]), C(n0, 64))
                I.store(st, at(o, fl[ar][0]), heap if n0 else C(0, 64))
                if cls == 'Witness':
                    I.store(st, at(o, fl['numElements'][0]), sym('elements', 32))
                if pre:
                    pre(I, st)
                return a

            def su2(I, st, a):
                I.specside = True
                I.store(st, out, C(n0, 64))
                if n0:
                    I.store(st, at(out, 8), I.load(st, heap, n0))
                if pre:
                    pre(I, st)
                return a

            def obs(v, s, I, a):
                if getattr(I, 'specside', False):
                    n, p = I.load(s, out, 8), at(out, 8)
                    el, v = add(sym('elements', 32), C(1, 32)), n
                else:
                    n, p = I.load(s, at(o, fl[ln][0]), 8), I.load(s, at(o, fl[ar][0]), 8)
                    el = I.load(s, at(o, fl['numElements'][0]), 4) if cls == 'Witness' else None
                return [('length', n), ('bytes', data_of(I, s, p, given(n, s.pc))), ('returned', v)] + ([('elements', el)] if cls == 'Witness' else [])
            c.equiv(sig, sp, [o] + args, obs, pc=AND(pc, NOT(eq(heap, C(0, 64)))), sargs=[out] + args, setup=su, setup2=su2, item='%s after %d bytes%s' % (sig.split('(')[0], n0, tag))
        for n0 in (0, 1, 40) + ((7, 253, 5000) if c.tier != 'quick' else ()):
            for args, pc, tag, pre in mk(c):
                run(n0, args, pc, tag, pre)


def _bytes(c):
    for n in (1, 2, 75, 252, 253, 256, 600):
        yield [c.L.arg('data'), C(n, 64)], TRUE, ', %d bytes' % n, None


def _key(c):
    p = c.L.arg('pub', 'PublicKey')
    yield [p], flags(c, p, cls='PublicKey'), '', None


def _sig(c):
    p = c.L.arg('sig', 'Signature')
    I = c.L.interp()
    fs = fields(c.L, 'Signature')
    r0, s0 = I.load(State(), at(p, fs['r'][0]), 1), I.load(State(), at(p, fs['s'][0]), 1)
    for rh in (0, 1):
        for sh in (0, 1):
            pc = AND(*[NOT(ult(x, C(128, 8))) if h else AND(ult(x, C(128, 8)), NOT(eq(x, C(0, 8)))) for x, h in ((r0, rh), (s0, sh))])
            yield [p, sym('sighash', 32)], pc, ', r %s s %s' % ('high' if rh else 'low', 'high' if sh else 'low'), None


def _script(c):
    L = c.L
    p = L.arg('script', 'Script')
    fl = fields(L, 'Script')
    h = L.arg('script_bytes')
    for n in (1, 34, 75, 76, 105, 252, 253, 255, 256, 520):
        def pre(I, st, n=n):
            I.store(st, at(p, fl['scriptLen'][0]), C(n, 64))
            I.store(st, at(p, fl['scriptArray'][0]), h)
        yield [p], NOT(eq(h, C(0, 64))), ', %d bytes' % n, pre


push('opcode push', 'Script', 'Script::push(unsigned char)', 'spec_push_code', lambda c: [([sym('code', 8)], TRUE, '', None)])
push('raw push', 'Script', 'Script::push(unsigned char const*, unsigned long)', 'spec_push_bytes', _bytes)
push('key push', 'Script', 'Script::push(PublicKey)', 'spec_push_key', _key)
push('signature push', 'Script', 'Script::push(Signature, SigHashType)', 'spec_push_sig', _sig)
push('script push', 'Script', 'Script::push(Script)', 'spec_push_script', _script)
push('witness data', 'Witness', 'Witness::push(unsigned char const*, unsigned long)', 'spec_wit_data', _bytes)
push('witness key', 'Witness', 'Witness::push(PublicKey)', 'spec_wit_key', _key)
push('witness signature', 'Witness', 'Witness::push(Signature, SigHashType)', 'spec_wit_sig', _sig)
push('witness script', 'Witness', 'Witness::push(Script)', 'spec_wit_script', _script)


@obligation('P13', 'size limit', S, 'a push that would exceed 10000 bytes leaves the object empty and returns 0')
def _(c):
    L = c.L
    for cls, sig, ov in (('Script', 'Script::push(unsigned char const*, unsigned long)', 0), ('Witness', 'Witness::push(unsigned char const*, unsigned long)', 1), ('Script', 'Script::push(unsigned char)', 0)):
        o, heap, d = L.arg('obj', cls), L.arg('old_bytes'), L.arg('data')
        fl = fields(L, cls)
        ln, ar = ('scriptLen', 'scriptArray') if cls == 'Script' else ('witnessLen', 'witnessArray')
        for n0, n in ((9999, 1), (10000, 1), (9900, 100), (9900, 101), (0, 10000), (0, 10001), (9999, 5000)):
            if sig.endswith('char)'):
                args = [o, sym('code', 8)]
                if n != 1:
                    continue
            else:
                args = [o, d, C(n, 64)]
            st = State()
            st.pc = AND(NOT(eq(heap, C(0, 64))), NOT(eq(d, C(0, 64))))
            I = L.interp()
            I.store(st, at(o, fl[ln][0]), C(n0, 64))
            I.store(st, at(o, fl[ar][0]), heap if n0 else C(0, 64))
            v, s = I.call(L.fn(sig), args, st)
            c.functions |= I.covered
            tot = n0 + n + (0 if not ov else 1 if n < 253 else 3)
            want = C(tot if tot <= 10000 else 0, 64)
            it = '%s, %d bytes after %d' % (sig.split('(')[0], n, n0)
            c.same(it + ' / length', I.load(s, at(o, fl[ln][0]), 8), want, st.pc, c.loc(sig))
            c.same(it + ' / returned', v, want, st.pc, c.loc(sig))


# ---------------------------------------------------------------- addresses
def const_under(x, pc, cand):
    x = given(x, pc)
    if x.op == 'c':
        return x
    for k in cand:
        if given(eq(x, C(k, x.w)), pc) is TRUE:
            return C(k, x.w)
    return x


def addr_models(L):
    """the text codecs as pure functions of their payload; a text is a fixed-width zero padded value"""
    W = {'b58text': 36, 'segwit_text': 74}

    def b58(I, a, st, ins):
        n = given(a[1], st.pc)
        if n.op != 'c':
            raise Unsupported('payload length')
        d = given(I.load(st, a[0], n.a[0], ins), st.pc)
        I.store(st, a[2], lift1(('b58t',), lambda z: f('b58text', 8 * 36, z), d), ins)
        return lift1(('b58l',), lambda z: f('b58len', 64, z), d)

    def seg_enc(I, a, st, ins):
        hrp = given(a[1], st.pc)
        n = const_under(a[4], st.pc, range(2, 41))
        ver = const_under(a[2], st.pc, range(17))
        txt = None
        for cnd, k in leaves(n):
            if k.op != 'c':
                raise Unsupported('program length')
            d = given(I.load(st, a[3], k.a[0], ins), AND(st.pc, cnd))
            x = lift2('seg%d' % k.a[0], lambda u, v: f('segwit_text', 8 * 74, u, v, hrp), d, ver)
            txt = x if txt is None else ITE(cnd, x, txt)
        I.store(st, a[0], txt, ins)
        return C(1, 32)

    def text(I, st, p):
        """(term, width) when p holds the text of a codec under the current guard"""
        for nm, w in W.items():
            try:
                t = given(I.load(st, p, w), st.pc)
            except Unsupported:
                continue
            if all(k.op == 'f' and k.a[0] == nm for _, k in leaves(t)):
                return t, w
        return None

    def strlen(I, a, st, ins):
        t = text(I, st, a[0])
        if t is None:
            return _m_strlen(I, a, st, ins)
        r = lift1(('txl',), lambda z: f('textlen', 64, z), t[0])
        for _, k in leaves(r):
            SYMRNG[k] = (1, t[1])
        return r

    def memcpy(I, a, st, ins):
        t = text(I, st, a[1])
        if t is None or lift1(('txl',), lambda z: f('textlen', 64, z), t[0]) is not given(a[2], st.pc):
            return _m_memcpy(I, a, st, ins)
        old = given(I.load(st, a[0], t[1]), st.pc)
        new = t[0] if old is C(0, 8 * t[1]) else lift2('ovl', lambda u, v: f('overlay', 8 * t[1], u, v), t[0], old)
        I.store(st, a[0], new, ins)
        return a[0]
    m = {L.fn('toBase58Check(unsigned char const*, unsigned long, char*, unsigned long)'): b58, '@segwit_addr_encode': seg_enc, '@strlen': strlen}
    for k in MEMCPY:
        m[k] = memcpy
    return m


KA = (('legacyAddress', 'spec_legacy', 36, 40), ('nestedSegwitAddress', 'spec_nested', 36, 40), ('segwitAddress', 'spec_segwit', 74, 76))


def strobs(out, w):
    """text behind a returned std::string vs text written by the reference"""
    return lambda v, s, I, a: [('text', I.load(s, out if getattr(I, 'specside', False) else I.load(s, out, 8), w))]


@obligation('P14', 'key addresses', S, RA)
def _(c):
    L = c.L
    p, o, net = L.arg('pub', 'PublicKey'), L.arg('out'), L.arg('network', 'Network')
    pc = flags(c, p, cls='PublicKey')
    for m, sp, w, mn in KA:
        for n in (40, 76, 100):
            c.equiv('PublicKey::%s(char*, unsigned long, Network const*) const' % m, sp, [p, o, C(n, 64), net],
                    lambda v, s, I, a: [('address', I.load(s, o, min(n, w)))] + ([('result', trunc(v, 32))] if w == 36 else []), pc=pc, models=addr_models(L), item='%s, buffer %d' % (m, n))
        c.equiv('PublicKey::%s[abi:cxx11](Network const*) const' % m, sp, [o, p, net], strobs(o, w), sargs=[p, o, C(100, 64), net], pc=pc, models=addr_models(L), setup=keep, setup2=spec(), item=m + ' string')


@obligation('P14', 'private key addresses', S, RA)
def _(c):
    L = c.L
    k, o = L.arg('key', 'PrivateKey'), L.arg('out')
    fk = fields(L, 'PrivateKey')
    I = L.interp()
    p = at(k, fk['pubKey'][0])
    pc = flags(c, p, cls='PublicKey')
    net = I.load(State(), at(k, fk['network'][0]), 8)
    for m, sp, w, mn in KA + (('address', 'spec_legacy', 36, 40),):
        c.equiv('PrivateKey::%s(char*, unsigned long) const' % m, sp, [k, o, C(100, 64)],
                lambda v, s, I, a: [('address', I.load(s, o, w))] + ([('result', trunc(v, 32))] if w == 36 else []), sargs=[p, o, C(100, 64), net], pc=pc, models=addr_models(L), item='PrivateKey::' + m)
        c.equiv('PrivateKey::%s[abi:cxx11]() const' % m, sp, [o, k], strobs(o, w), sargs=[p, o, C(100, 64), net], pc=pc, models=addr_models(L), setup=keep, setup2=spec(), item='PrivateKey::%s string' % m)


@obligation('P14', 'HD key addresses', S, RA)
def _(c):
    L = c.L
    o = L.arg('out')
    for cls in ('HDPrivateKey', 'HDPublicKey'):
        k = L.arg('key', cls)
        fk = fields(L, cls)
        I = L.interp()
        p = at(k, fk['pubKey'][0]) if cls == 'HDPrivateKey' else k
        pc = flags(c, p, cls='PublicKey')
        net = I.load(State(), at(k, fk['network'][0]), 8)
        for t, sp, w in ((2, 'spec_legacy', 36), (4, 'spec_segwit', 74), (6, 'spec_nested', 36), (0, 'spec_segwit', 74), (3, 'spec_segwit', 74), (5, 'spec_segwit', 74)):
            def su(I, st, a):
                I.store(st, at(k, fk['type'][0]), C(t, 32))
                return a
            c.equiv(cls + '::address(char*, unsigned long) const', sp, [k, o, C(100, 64)], lambda v, s, I, a: [('address', I.load(s, o, w))], sargs=[p, o, C(100, 64), net], pc=pc,
                    models=addr_models(L), setup=su, setup2=spec(), item='%s::address, type %d' % (cls, t))
            c.equiv(cls + '::address[abi:cxx11]() const', sp, [o, k], strobs(o, w), sargs=[p, o, C(100, 64), net], pc=pc, models=addr_models(L), setup=su, setup2=spec(), item='%s::address string, type %d' % (cls, t))


@obligation('P14', 'script addresses', S, RA)
def _(c):
    L = c.L
    p, o, net = L.arg('script', 'Script'), L.arg('out'), L.arg('network', 'Network')
    h = L.arg('script_bytes')
    fl = fields(L, 'Script')
    for n in (0, 20, 21, 22, 23, 24, 25, 26, 33, 34, 35, 42, 300):
        def su(I, st, a):
            I.store(st, at(p, fl['scriptLen'][0]), C(n, 64))
            I.store(st, at(p, fl['scriptArray'][0]), h if n else C(0, 64))
            return a
        c.equiv('Script::address(char*, unsigned long, Network const*) const', 'spec_address', [p, o, C(100, 64), net],
                lambda v, s, I, a: [('address', I.load(s, o, 100)), ('length', v)], pc=NOT(eq(h, C(0, 64))), models=addr_models(L), setup=su, item='Script::address, %d byte script' % n)

        def su2(I, st, a):
            I.specside = True
            return su(I, st, a)
        if n:
            c.equiv('Script::address[abi:cxx11](Network const*) const', 'spec_address', [o, p, net], strobs(o, 76), sargs=[p, o, C(100, 64), net], pc=NOT(eq(h, C(0, 64))), models=addr_models(L), setup=su, setup2=su2,
                    item='Script::address string, %d byte script' % n)


@obligation('P14', 'script from address', S, RA)
def _(c):
    from interp import cstr_of
    L = c.L
    o, txt, out = L.arg('obj', 'Script'), L.arg('text'), L.arg('out')
    ln = sym('text_len', 64)
    for n in (2, 20, 32, 40):
        prog, ver, pay, plen = sym('program', 8 * n), sym('version', 32), sym('payload', 8 * 21), zext(sym('payload_len', 16), 64)
        b58ok = atom('b58ok', sym('text_valid', 64))

        def b58(I, a, st, ins):
            I.store(st, a[2], ITE(b58ok, pay, C(0, 8 * 21)), ins)
            return ITE(b58ok, plen, C(0, 64))

        def dec(I, a, st, ins):
            ok = FALSE
            for cnd, ob, off in I.ptr_leaves(st, a[3]):
                h = cstr_of(I, st, mkptr(ob, off))
                if h is None:
                    raise Unsupported('human readable part')
                ok = OR(ok, AND(cnd, atom('segwit_ok', C(int.from_bytes(h, 'big'), 64))))
            I.store(st, a[0], ITE(ok, ver, I.load(st, a[0], 4)), ins)
            I.store(st, a[1], ITE(ok, prog, I.load(st, a[1], n)), ins)
            I.store(st, a[2], ITE(ok, C(n, 64), I.load(st, a[2], 8)), ins)
            return zext(ok, 32)

        def strlen(I, a, st, ins):
            if a[0] is txt or aspt(a[0]) is aspt(txt):
                return ln
            return _m_strlen(I, a, st, ins)
        mo = {L.fn('fromBase58Check(char const*, unsigned long, unsigned char*, unsigned long)'): b58, '@segwit_addr_decode': dec, '@strlen': strlen}
        pc = AND(NOT(eq(txt, C(0, 64))), ult(ver, C(17, 32)), ult(C(5, 64), ln))
        c.equiv('@impl_from_address', 'spec_from_address', [o, txt], lambda v, s, I, a: scobs(c, a[0])(v, s, I, a), pc=pc, models=mo, sargs=[out, txt], setup=keep, setup2=spec(), item='Script(address), %d byte program' % n)
