from check import *
from checks.hd import xobs, spec, fields, NAMES, at_any
S = 'hd.cpp'
RULE = 'value graph equals the BIP-32 / SLIP-132 reference encoding'


def b58_model(L):
    """Base58Check text as a pure function of the payload"""
    def enc(I, a, st, ins):
        n = given(a[1], st.pc)
        txt = ln = None
        for cnd, k in leaves(n):
            if k.op != 'c':
                raise Unsupported('payload length')
            d = given(I.load(st, a[0], k.a[0], ins), AND(st.pc, cnd))
            x, y = f('b58check', 8 * 112, d, a[3]), f('b58check.len', 64, d, a[3])
            txt, ln = (x, y) if txt is None else (ITE(cnd, x, txt), ITE(cnd, y, ln))
        I.store(st, a[2], txt, ins)
        return ln
    return {L.fn('toBase58Check(unsigned char const*, unsigned long, char*, unsigned long)'): enc}


def payload(cls, sig, sp, item):
    @obligation('P09', item, S, RULE)
    def _(c):
        L = c.L
        k, o = L.arg('key', cls), L.arg('out')
        c.equiv(sig, sp, [k, o, C(78, 64)], lambda v, s, I, a: [('payload', I.load(s, o, 78))], sargs=[k, o])


payload('HDPrivateKey', 'HDPrivateKey::to_bytes(unsigned char*, unsigned long) const', 'spec_xprv_payload', 'private payload')
payload('HDPublicKey', 'HDPublicKey::to_bytes(unsigned char*, unsigned long) const', 'spec_xpub_payload', 'public payload')


def text(cls, sig, sp, item):
    @obligation('P09', item, S, RULE)
    def _(c):
        L = c.L
        k, o, n = L.arg('key', cls), L.arg('out'), sym('n', 64)
        c.equiv(sig, sp, [k, o, n], lambda v, s, I, a: [('text', I.load(s, o, 112)), ('length', trunc(v, 32))], models=b58_model(L))


text('HDPrivateKey', 'HDPrivateKey::xprv(char*, unsigned long) const', 'spec_xprv_text', 'xprv text')
text('HDPrivateKey', 'HDPrivateKey::xpub(char*, unsigned long) const', 'spec_xpub_text_of_prv', 'xpub text of a private key')
text('HDPublicKey', 'HDPublicKey::xpub(char*, unsigned long) const', 'spec_xpub_text', 'xpub text')


def parse(cls, sp, item):
    @obligation('P09', item, S, RULE)
    def _(c):
        L = c.L
        k, txt, n = L.arg('key', cls), L.arg('text'), sym('n', 64)
        pay = sym('payload', 8 * 78)
        okb = atom('b58ok', sym('text_valid', 64))
        plen = sym('payload_len', 64)

        def dec(I, a, st, ins):
            # any decoder result: a payload of plen bytes, or failure (0)
            I.store(st, a[2], ITE(okb, pay, C(0, 8 * 78)), ins)
            return ITE(okb, plen, C(0, 64))
        mo = {L.fn('fromBase58Check(char const*, unsigned long, unsigned char*, unsigned long)'): dec}
        mo.update(L.sec_models())
        fo = fields(L, cls)
        ob = xobs(c, cls, k)
        buf = L.arg('payload_buf')
        acc = {}

        def su(I, st, a):
            if cls == 'HDPublicKey':
                v, s2 = I.call(L.fn('HDPublicKey::HDPublicKey()'), [k], st)
                st.mem = s2.mem
            return a

        def su2(I, st, a):
            I.specside = True
            I.store(st, buf, pay)
            return a

        def obs(v, s, I, a):
            if getattr(I, 'specside', False):
                a_ = AND(okb, eq(plen, C(78, 64)), NOT(eq(v, C(0, 32))))
            else:
                stt = I.load(s, at(k, fo['status'][0]), 4)
                v2, s3 = I.call(L.fn(cls.replace('HDPrivateKey', 'ECScalar').replace('HDPublicKey', 'ECPoint') + '::isValid() const'), [k], s)
                a_ = AND(v2, eq(stt, C(0, 32)))
            acc[len(acc)] = a_
            r = [('accepted', a_)]
            for lab, t in ob(v, s, I, a):
                r.append((lab, ITE(a_, t, C(0, t.w))))
            return r
        sig = cls + '::from_str(char const*, unsigned long)'
        c.equiv(sig, sp, [k, txt, n], obs, pc=AND(ult(plen, C(86, 64)), NOT(eq(plen, C(0, 64)))), sargs=[k, buf], setup=su, setup2=su2, models=mo)


parse('HDPrivateKey', 'spec_xprv_parse', 'private key text')
parse('HDPublicKey', 'spec_xpub_parse', 'public key text')
