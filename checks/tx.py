from check import *

T = 'tx.cpp'
RULE = 'value graph of the entry point equals the value graph of the reference preimage'


def A(L):
    return L.arg('tx', 'Tx'), L.arg('out')


@obligation('P01', 'legacy signature digest', T, RULE)
def _(c):
    tx, out = A(c.L)
    sc = c.L.arg('script', 'Script')
    c.equiv('Tx::sigHash(unsigned char*, unsigned char, Script, SigHashType) const', 'spec_sigHash',
            [tx, out, sym('i', 8), sc, sym('sh', 32)], BOTH(RET, MEM(1, 32)))


@obligation('P02', 'segwit v0 signature digest', T, RULE)
def _(c):
    tx, out = A(c.L)
    sc = c.L.arg('script', 'Script')
    c.equiv('Tx::sigHashSegwit(unsigned char*, unsigned char, Script, unsigned long, SigHashType) const', 'spec_sigHashSegwit',
            [tx, out, sym('i', 8), sc, sym('amount', 64), sym('sh', 32)], BOTH(RET, MEM(1, 32)))


for n in ('hashPrevouts', 'hashSequence', 'hashOutputs'):
    @obligation('P02', n, T, RULE)
    def _(c, n=n):
        tx, out = A(c.L)
        c.equiv('Tx::%s(unsigned char*) const' % n, 'spec_' + n, [tx, out], BOTH(RET, MEM(1, 32)))

for n in ('hash', 'whash', 'txid', 'wtxid'):
    @obligation('P03', n, T, RULE)
    def _(c, n=n):
        tx, out = A(c.L)
        c.equiv('Tx::%s(unsigned char*) const' % n, 'spec_' + n, [tx, out], BOTH(RET, MEM(1, 32)))
