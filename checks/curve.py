from check import *
from checks.hd import spec, fields
from checks.xkey import b58_model
S = 'curve.cpp'
RSEC = 'value graph equals the SEC 1 reference over the point-decoding primitive'
ROP = 'value graph equals the group operation of the reference'
RWIF = 'value graph equals the WIF / key object reference'


def fo(L, cls, n):
    return fields(L, cls)[n]


def ptobs(c, out, comp=True, cls='ECPoint'):
    L = c.L

    def obs(v, s, I, a):
        sp = getattr(I, 'specside', False)
        r = [('point', I.load(s, at(out, 0 if sp else fo(L, cls, 'point')[0]), 64))]
        if comp:
            r.append(('compression flag', I.load(s, at(out, 64 if sp else fo(L, cls, 'compressed')[0]), 1)))
        return r
    return obs


def flags(c, *objs, cls='ECPoint'):
    """stored bools are 0/1"""
    L, I, st, pc = c.L, c.L.interp(), State(), TRUE
    for o in objs:
        pc = AND(pc, ult(I.load(st, at(o, fo(L, cls, 'compressed')[0]), 1), C(2, 8)))
    return pc


def valid(c, *objs, cls='ECPoint'):
    """points on the curve (canonical coordinates)"""
    L, I, st, pc = c.L, c.L.interp(), State(), TRUE
    for o in objs:
        po = fo(L, cls, 'point')[0]
        x, y = I.load(st, at(o, po), 32), I.load(st, at(o, po + 32), 32)
        pc = AND(pc, atom('oncurve', x, y), atom('onx', x))
    return pc


def keep(I, st, a):
    return a


for _sig, _n in (('ECPoint::fromSec(unsigned char const*, unsigned long)', None),):
    @obligation('P06', 'public key object from bytes', S, RSEC)
    def _(c):
        L = c.L
        p, s, n = L.arg('pt', 'ECPoint'), L.arg('sec'), sym('len', 64)
        o = L.arg('o')

        def su(I, st, a):
            v, s2 = I.call(L.fn('ECPoint::ECPoint()'), [p], st)
            st.mem = s2.mem
            return a

        def obs(v, s_, I, a):
            sp = getattr(I, 'specside', False)
            if sp:
                ok = NOT(eq(v, C(0, 32)))
                q, k = at(o, 0), at(o, 64)
            else:
                q, k = at(p, fo(L, 'ECPoint', 'point')[0]), at(p, fo(L, 'ECPoint', 'compressed')[0])
                v2, s3 = I.call(L.fn('ECPoint::isValid() const'), [p], s_)
                ok = AND(eq(I.load(s_, at(p, fo(L, 'ECPoint', 'status')[0]), 4), C(0, 32)), v2)
            return [('accepted', ok), ('point', ITE(ok, I.load(s_, q, 64), C(0, 512))), ('compression flag', ITE(ok, I.load(s_, k, 1), C(0, 8)))]
        I = L.interp()
        pre = I.load(State(), s, 1)
        for item, pc in (('long buffer', ult(C(64, 64), n)), ('33 bytes', AND(eq(n, C(33, 64)))), ('short buffer', ult(n, C(33, 64)))):
            if item == 'short buffer':
                for k in (0, 1, 16, 32):
                    c.equiv('ECPoint::fromSec(unsigned char const*, unsigned long)', 'spec_from_sec', [p, s, C(k, 64)], obs, pc=NOT(eq(s, C(0, 64))), sargs=[o, s, C(k, 64)], setup=su, setup2=spec(), models=L.sec_models(), item='ECPoint::fromSec %d bytes' % k)
                continue
            if item == '33 bytes':
                n = C(33, 64)
                pc = TRUE
            c.equiv('ECPoint::fromSec(unsigned char const*, unsigned long)', 'spec_from_sec', [p, s, n], obs, pc=AND(pc, NOT(eq(s, C(0, 64)))), sargs=[o, s, n], setup=su, setup2=spec(), models=L.sec_models(), item='ECPoint::fromSec ' + item)


@obligation('P06', 'public key constructors', S, RSEC)
def _(c):
    L = c.L
    p, s, o = L.arg('pt', 'PublicKey'), L.arg('sec'), L.arg('o')
    for cls in ('ECPoint', 'PublicKey'):
        def obs(v, s_, I, a):
            sp = getattr(I, 'specside', False)
            if sp:
                ok = NOT(eq(v, C(0, 32)))
                q, k = at(o, 0), at(o, 64)
            else:
                q, k = at(p, fo(L, cls, 'point')[0]), at(p, fo(L, cls, 'compressed')[0])
                v2, s3 = I.call(L.fn('ECPoint::isValid() const'), [p], s_)
                ok = AND(eq(I.load(s_, at(p, fo(L, cls, 'status')[0]), 4), C(0, 32)), v2)
            return [('accepted', ok), ('point', ITE(ok, I.load(s_, q, 64), C(0, 512))), ('compression flag', ITE(ok, I.load(s_, k, 1), C(0, 8)))]
        sig = 'ECPoint::ECPoint(unsigned char const*)' if cls == 'ECPoint' else '@impl_pk_sec'
        if 1:
            c.equiv(sig, 'spec_from_sec', [p, s], obs, pc=NOT(eq(s, C(0, 64))), sargs=[o, s, C(65, 64)], setup=keep, setup2=spec(), models=L.sec_models(), item=cls + ' constructor')


@obligation('P06', 'public key serialisation', S, RSEC)
def _(c):
    L = c.L
    p, o = L.arg('pt', 'ECPoint'), L.arg('out')
    pc = flags(c, p)
    I = L.interp()
    for k, n in ((1, 33), (0, 65)):
        q = AND(pc, eq(I.load(State(), at(p, fo(L, 'ECPoint', 'compressed')[0]), 1), C(k, 8)))
        c.equiv('ECPoint::sec(unsigned char*, unsigned long) const', 'spec_sec', [p, o, C(65, 64)], lambda v, s, I, a: [('length', v), ('bytes', I.load(s, o, n))], pc=q, sargs=[p, o], item='ECPoint::sec %d bytes' % n)
    c.equiv('ECPoint::isValid() const', 'spec_pt_valid', [p], RET, pc=pc, models=L.sec_models())


def op(prop, item, sig, sp, shape, comp=False, pre=None, models=True, rule=ROP):
    @obligation(prop, item, S, rule)
    def _(c):
        L = c.L
        out = L.arg('out')
        objs = [L.arg('abcd'[i], t) for i, t in enumerate(shape)]
        pts = [o for o, t in zip(objs, shape) if t == 'ECPoint']
        pc = flags(c, *pts)
        if pre:
            pc = AND(pc, valid(c, *pts))
        for b in ((0, 1) if len(shape) == 1 else (None,)):
            q = pc if b is None else AND(pc, eq(L.interp().load(State(), at(objs[0], fo(L, 'ECPoint', 'compressed')[0]), 1), C(b, 8)))
            c.equiv(sig, sp, [out] + objs, ptobs(c, out, comp), pc=q, setup=keep, setup2=spec(), models=L.sec_models())


op('P12', 'point addition', 'ECPoint::operator+(ECPoint const&) const', 'spec_pt_add', ['ECPoint', 'ECPoint'])
op('P12', 'point negation', 'ECPoint::operator-() const', 'spec_pt_neg', ['ECPoint'], comp=True, pre=True)
op('P12', 'point subtraction', 'ECPoint::operator-(ECPoint const&) const', 'spec_pt_sub', ['ECPoint', 'ECPoint'], pre=True)
op('P12', 'scalar times point', 'operator*(ECScalar const&, ECPoint const&)', 'spec_pt_mul', ['ECScalar', 'ECPoint'], comp=True, pre=True)


def sc(item, sig, sp, shape):
    @obligation('P12', item, S, ROP)
    def _(c):
        L = c.L
        out = L.arg('out')
        objs = [L.arg('abcd'[i], t) if t else L.arg('i') for i, t in enumerate(shape)]
        no = fo(L, 'ECScalar', 'num')[0]
        c.equiv(sig, sp, [out] + objs, lambda v, s, I, a: [('scalar', I.load(s, at(out, 0 if getattr(I, 'specside', False) else no), 32))], setup=keep, setup2=spec())


for _op, _n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'div')):
    sc('scalar ' + _n, 'ECScalar::operator%s(ECScalar const&) const' % _op, 'spec_sc_' + _n, ['ECScalar', 'ECScalar'])
sc('scalar negation', 'ECScalar::operator-() const', 'spec_sc_neg', ['ECScalar'])
sc('scalar plus integer', 'ECScalar::operator+(unsigned int const&) const', 'spec_sc_addi', ['ECScalar', None])
sc('scalar minus integer', 'ECScalar::operator-(unsigned int const&) const', 'spec_sc_subi', ['ECScalar', None])


@obligation('P12', 'comparisons', S, ROP)
def _(c):
    L = c.L
    for cls, k in (('ECPoint', 'pt'), ('ECScalar', 'sc')):
        a, b = L.arg('a', cls), L.arg('b', cls)
        for o, n, sw, inv in (('eq', 'eq', 0, 0), ('ne', 'eq', 0, 1), ('lt', 'less', 0, 0), ('gt', 'less', 1, 0), ('ge', 'less', 0, 1), ('le', 'less', 1, 1)):
            c.equiv('@impl_%s_%s' % (k, o), 'spec_%s_%s' % (k, n), [a, b],
                    (lambda inv: lambda v, s, I, x: [('result', NOT(v) if inv and getattr(I, 'specside', False) else v)])(inv), pc=flags(c, a, b) if cls == 'ECPoint' else TRUE,
                    sargs=[b, a] if sw else [a, b], item='%s %s' % (cls, o), setup=keep, setup2=spec())


@obligation('P12', 'scalar construction', S, ROP)
def _(c):
    L = c.L
    o, d = L.arg('o', 'ECScalar'), L.arg('d')
    no = fo(L, 'ECScalar', 'num')[0]
    c.equiv('@impl_sc_valid', 'spec_sc_valid', [o], RET, item='ECScalar::isValid')
    c.equiv('@impl_sc_int', 'spec_sc_int', [o, sym('i', 32)], lambda v, s, I, a: [('scalar', I.load(s, at(o, 0 if getattr(I, 'specside', False) else no), 32))], setup=keep, setup2=spec(), item='ECScalar from integer')

    def obs(v, s, I, a):
        sp = getattr(I, 'specside', False)
        ok = NOT(eq(v, C(0, 32))) if sp else eq(I.load(s, at(o, fo(L, 'ECScalar', 'status')[0]), 4), C(0, 32))
        return [('accepted', ok), ('scalar', ITE(ok, I.load(s, at(o, 0 if sp else no), 32), C(0, 256)))]
    c.equiv('@impl_sc_parse', 'spec_sc_parse', [o, d], obs, pc=NOT(eq(d, C(0, 64))), setup=keep, setup2=spec(), item='ECScalar from 32 bytes')


@obligation('P12', 'key agreement', S, ROP)
def _(c):
    L = c.L
    k, p, o = L.arg('key', 'PrivateKey'), L.arg('pub', 'PublicKey'), L.arg('out')
    h = NOT(eq(sym('h', 8), C(0, 8)))
    c.equiv('PrivateKey::ecdh(PublicKey, unsigned char*, bool)', 'spec_ecdh', [k, p, o, h], lambda v, s, I, a: [('secret', I.load(s, o, 32))],
            pc=AND(flags(c, p, cls='PublicKey'), valid(c, p, cls='PublicKey')), models=L.sec_models())


# ---------------------------------------------------------------- private keys
def keyobs(c, k, acc=None):
    L = c.L
    fk, fs = fields(L, 'PrivateKey'), fields(L, 'Key')
    fp = fields(L, 'PublicKey')

    def obs(v, s, I, a):
        sp = getattr(I, 'specside', False)
        ok = TRUE
        if acc:
            ok = acc(v, s, I, sp)
        pk = fk['pubKey'][0]
        loc = [('secret', fs['secret'][0] if sp else fk['num'][0], 32), ('public point', fs['xy'][0] if sp else pk + fp['point'][0], 64),
               ('compression flag', fs['comp'][0] if sp else pk + fp['compressed'][0], 1), ('network', fs['net'][0] if sp else fk['network'][0], 8)]
        return [('accepted', ok)] + [(n, ITE(ok, I.load(s, at(k, o), w), C(0, 8 * w))) for n, o, w in loc]
    return obs


@obligation('P11', 'private key construction', S, RWIF)
def _(c):
    L = c.L
    k, d, net = L.arg('key', 'PrivateKey'), L.arg('secret'), L.arg('net', 'Network')
    comp = NOT(eq(sym('comp', 8), C(0, 8)))
    c.equiv('PrivateKey::PrivateKey(unsigned char const*, bool, Network const*)', 'spec_key', [k, d, comp, net], keyobs(c, k), setup=keep, setup2=spec(), models=L.sec_models())
    e = L.arg('sc', 'ECScalar')
    c.equiv('PrivateKey::PrivateKey(ECScalar)', 'spec_key_sc', [k, e], keyobs(c, k), setup=keep, setup2=spec(), models=L.sec_models(), item='PrivateKey from scalar')


@obligation('P11', 'WIF text', S, RWIF)
def _(c):
    L = c.L
    k, o, n = L.arg('key', 'PrivateKey'), L.arg('out'), sym('n', 64)
    I = L.interp()
    co = fields(L, 'PrivateKey')['pubKey'][0] + fo(L, 'PublicKey', 'compressed')[0]
    for b in (0, 1):
        pc = eq(I.load(State(), at(k, co), 1), C(b, 8))
        c.equiv('PrivateKey::wif(char*, unsigned long) const', 'spec_wif', [k, o, n], lambda v, s, I, a: [('text', I.load(s, o, 52)), ('length', trunc(v, 32))], pc=pc, models=b58_model(L), item='PrivateKey::wif %s' % ('compressed' if b else 'uncompressed'))


@obligation('P11', 'WIF parsing', S, RWIF)
def _(c):
    L = c.L
    k, txt, n = L.arg('key', 'PrivateKey'), L.arg('text'), sym('n', 64)
    pay, okb, plen, buf = sym('payload', 8 * 40), atom('b58ok', sym('text_valid', 64)), sym('payload_len', 64), L.arg('payload_buf')

    def dec(I, a, st, ins):
        I.store(st, a[2], ITE(okb, pay, C(0, 8 * 40)), ins)
        return ITE(okb, plen, C(0, 64))
    mo = {L.fn('fromBase58Check(char const*, unsigned long, unsigned char*, unsigned long)'): dec}
    mo.update(L.sec_models())

    def su(I, st, a):
        v, s2 = I.call(L.fn('PrivateKey::PrivateKey()'), [k], st)
        st.mem = s2.mem
        return a

    def su2(I, st, a):
        I.specside = True
        I.store(st, buf, pay)
        return a

    def acc(v, s, I, sp):
        if sp:
            return AND(okb, NOT(eq(v, C(0, 32))))
        v2, s3 = I.call(L.fn('ECScalar::isValid() const'), [k], s)
        return AND(NOT(eq(v, C(0, 32))), v2)
    c.equiv('PrivateKey::fromWIF(char const*, unsigned long)', 'spec_from_wif', [k, txt, n], keyobs(c, k, acc), pc=AND(ult(plen, C(41, 64)), NOT(eq(plen, C(0, 64)))), sargs=[k, buf, plen],
            setup=su, setup2=su2, models=mo)

    def rej(v, s, I, a):
        v2, s3 = I.call(L.fn('ECScalar::isValid() const'), [k], s)
        return v, v2
    st = State()
    st.pc = AND(ult(plen, C(41, 64)), NOT(eq(plen, C(0, 64))))
    I = L.interp(mo)
    su(I, st, [])
    v, s2 = I.call(L.fn('PrivateKey::fromWIF(char const*, unsigned long)'), [k, txt, n], st)
    ok, val = rej(v, s2, I, [])
    c.same('PrivateKey::fromWIF / rejected strings leave an invalid key', AND(eq(v, C(0, 32)), val), FALSE, st.pc, c.loc('PrivateKey::fromWIF(char const*, unsigned long)'))


@obligation('P06', 'x-only keys and accessors', S, RSEC)
def _(c):
    L = c.L
    p, s, n, o = L.arg('pt', 'ECPoint'), L.arg('x'), sym('len', 64), L.arg('o')

    def obs(v, s_, I, a):
        sp = getattr(I, 'specside', False)
        if sp:
            ok = NOT(eq(v, C(0, 32)))
            q = at(o, 0)
        else:
            q = at(p, fo(L, 'ECPoint', 'point')[0])
            v2, s3 = I.call(L.fn('ECPoint::isValid() const'), [p], s_)
            ok = AND(eq(I.load(s_, at(p, fo(L, 'ECPoint', 'status')[0]), 4), C(0, 32)), v2)
        return [('accepted', ok), ('point', ITE(ok, I.load(s_, q, 64), C(0, 512)))]
    c.equiv('@impl_pt_from_x', 'spec_from_x', [p, s, n], obs, pc=NOT(ult(n, C(32, 64))), sargs=[o, s, n], setup=keep, setup2=spec(), models=L.sec_models(), item='ECPoint::from_x')
