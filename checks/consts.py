from check import *
from checks.hd import fields

RC = 'constant initialiser in the IR equals the published value'
NETS = {  # p2pkh p2sh hrp wif, (x y z Y Z) prv, pub, coin
    'Mainnet': (0x00, 0x05, b'bc', 0x80, '0488ade4 049d7878 04b2430c 0295b005 02aa7a99', '0488b21e 049d7cb2 04b24746 0295b43f 02aa7ed3', 0),
    'Testnet': (0x6f, 0xc4, b'tb', 0xef, '04358394 044a4e28 045f18bc 024285b5 02575048', '043587cf 044a5262 045f1cf6 024289ef 02575483', 1),
    'Regtest': (0x6f, 0xc4, b'bcrt', 0xef, '04358394 044a4e28 045f18bc 024285b5 02575048', '043587cf 044a5262 045f1cf6 024289ef 02575483', 1),
    'Signet': (0x6f, 0xc4, b'tb', 0xef, '04358394 044a4e28 045f18bc 024285b5 02575048', '043587cf 044a5262 045f1cf6 024289ef 02575483', 1),
}


def table(prop, name, pick):
    @obligation(prop, name, 'script.cpp', RC)
    def _(c):
        L = c.L
        I, st = L.interp(), State()
        fl = fields(L, 'Network')
        for i, (n, v) in enumerate(NETS.items()):
            g = mkptr(('g', '@' + n), C(0, 64))
            for f_, b in pick(v):
                x = I.load(st, at(g, fl[f_][0]), len(b))
                c.same('%s %s' % (n, f_), x, C(int.from_bytes(b, 'little'), 8 * len(b)), TRUE, 'src/Networks.cpp %s.%s' % (n, f_))
            p = I.load(st, mkptr(('g', '@networks'), C(8 * i, 64)), 8)
            c.same('networks[%d]' % i, p, g, TRUE, 'src/Networks.cpp networks')
        c.same('networks_len', I.load(st, mkptr(('g', '@networks_len'), C(0, 64)), 1), C(4, 8), TRUE, 'src/Networks.cpp networks_len')


B = lambda x: bytes([x])
table('P14', 'address prefixes', lambda v: [('p2pkh', B(v[0])), ('p2sh', B(v[1])), ('bech32', (v[2] + bytes(5))[:5])])
table('P11', 'WIF prefixes', lambda v: [('wif', B(v[3]))])
table('P09', 'version bytes', lambda v: [(k + 'prv', bytes.fromhex(x)) for k, x in zip('xyzYZ', v[4].split())] + [(k + 'pub', bytes.fromhex(x)) for k, x in zip('xyzYZ', v[5].split())])
table('P08', 'coin types', lambda v: [('bip32', v[6].to_bytes(4, 'little'))])
