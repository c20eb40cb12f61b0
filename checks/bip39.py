"""P19: BIP-39 mnemonics"""
import os, hashlib
from check import *
from lib import data_of
import bytefn as BF
from checks.conv import NONNULL
S = 'bip39.cpp'
R = 'value graph of the sentence, of the recovered bits and of the verdict equals the BIP-39 reference, for a word list that is a parameter'
LENS = (16, 20, 24, 28, 32)
HASH = '2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda'


def table(c):
    """name of the word table"""
    I, st = c.L.interp(), State()
    v, _ = I.call('@mnemonic_wordlist', [], st)
    if v.op != 'ptr' or v.a[0][0] != 'g' or v.a[1] is not C(0, 64):
        raise Unsupported('word list is not a constant table')
    return v.a[0][1]


@obligation('P19', 'word list', S, 'the constant table in the program is the English list of BIP-39, word by word, ended by a null pointer')
def _(c):
    want = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'english.txt')).read().split()
    assert hashlib.sha256(('\n'.join(want) + '\n').encode()).hexdigest() == HASH
    g = table(c)
    I, st = c.L.interp(), State()
    from interp import cstr_of
    loc = 'src/utility/trezor/bip39_english.h ' + g
    for i, w in enumerate(want):
        p = I.read(st, ('g', g), C(8 * i, 64), 8)
        s = cstr_of(I, st, p) if p.op == 'ptr' else None
        if s is None:
            c.bad('word %d' % i, 'no string, expected "%s"' % w, loc) if p.op == 'c' else c.unknown('word %d' % i, 'not a constant', loc)
        else:
            c.expect(s == w.encode(), 'word %d' % i, '"%s", the list says "%s"' % (s.decode('latin1'), w), loc)
    p = I.read(st, ('g', g), C(8 * 2048, 64), 8)
    c.expect(p is C(0, 64), 'end of the list', 'list is not ended by a null pointer after 2048 words', loc)


def abstract(g, wl, su=None):
    """word list whose 2048 words have wl characters each, contents open"""
    def fill(I, st, a):
        I.ginit[g] = lambda I: O(mk('aptab', 0, ('g', '@#words'), wl + 1, 2048), C(8 * 2049, 64), -1)
        I.ginit['@#words'] = lambda I: O(mk('asym', 0, ('g', '@#words')), C((wl + 1) * 2048, 64), -1)
        I.fixlen[('g', '@#words')] = wl
        return su(I, st, a) if su else a
    return fill


def sentence(words, wl):
    """the text behind the returned pointer, or null"""
    def obs(v, s, I, a):
        r = [('null', eq(v, C(0, 64)))]
        if words and v.op == 'ptr':
            r.append(('sentence', I.load(s, v, words * (wl + 1))))
        return r
    return obs


def rnd(I, a, st, ins):
    n = sext(a[1], 64) if a[1].w < 64 else a[1]
    if n.op != 'c':
        raise Unsupported('random bytes')
    for i in range(n.a[0]):
        I.store(st, at(a[0], i), f('rnd', 8, C(i, 8)))
    return None


@obligation('P19', 'entropy to words', S, R)
def _(c):
    g = table(c)
    e = c.L.arg('entropy')
    pc = NONNULL(e)
    for wl in (3, 8):
        for n in range(-4, 41):
            k = n // 4 * 3 if n in LENS else 0
            kw = dict(pc=pc, setup=abstract(g, wl), bits=True, bounded=True)
            c.equiv('@mnemonic_from_data', 'spec_from_data', [e, C(n, 32)], sentence(k, wl), item='mnemonic_from_data %d bytes, %d letter words' % (n, wl), **kw)
            if n >= 0:
                c.equiv('mnemonicFromEntropy(unsigned char const*, unsigned long)', 'spec_from_entropy', [e, C(n, 64)], sentence(k, wl), item='mnemonicFromEntropy %d bytes, %d letter words' % (n, wl), **kw)
                w = n
                k = w if w in (12, 15, 18, 21, 24) else 0
                c.equiv('@impl_random', 'spec_from_random', [C(w, 8)], sentence(k, wl), models={'@random_buffer': rnd}, item='generateMnemonic(%d), %d letter words' % (w, wl), **kw)
                c.equiv('@impl_generate', 'spec_generate', [C(w, 8), e, sym('len', 64)], sentence(k, wl), item='generateMnemonic(%d, data), %d letter words' % (w, wl), **kw)
                c.equiv('@impl_generate_str', 'spec_generate_str', [C(w, 8), e], sentence(k, wl), item='generateMnemonic(%d, text), %d letter words' % (w, wl), **kw)
        c.equiv('@impl_generate24', 'spec_generate24', [e, sym('len', 64)], sentence(24, wl), item='generateMnemonic(data), %d letter words' % wl, **kw)
        c.equiv('@impl_generate_str24', 'spec_generate_str24', [e], sentence(24, wl), item='generateMnemonic(text), %d letter words' % wl, **kw)


# the entries that can match; all others are words no sentence below contains
KEYS = {0: 'zero', 1: 'one', 2: 'two', 4: 'four', 8: 'eight', 16: 'sixteen', 32: 'w32', 64: 'w64', 128: 'w128', 256: 'w256', 512: 'w512', 1024: 'w1024', 2047: 'lastword', 1365: 'odd', 682: 'even'}


def partial(g, su):
    def fill(I, st, a):
        def tab(I):
            o = O(mk('abytes', 0, bytes(8 * 2049)), C(8 * 2049, 64), -1)
            for k in range(2048):
                p = mkptr(('g', '@#w%d' % k if k in KEYS else '@#other'), C(0, 64))
                for j in range(8):
                    o.cells[8 * k + j] = (p, j)
            return o
        I.ginit[g] = tab
        for k, w in list(KEYS.items()) + [('other', '!!!!')]:
            n = '@#other' if k == 'other' else '@#w%d' % k
            b = (w.encode() + b'\0')
            I.ginit[n] = lambda I, b=b: O(mk('abytes', 0, b), C(len(b), 64), -1)
        return su(I, st, a)
    return fill


def text(p, words, at_=None, n=4):
    """sentence with an arbitrary n letter word at one place; returns writer and the facts about its letters"""
    bs, facts = [], []
    for i, w in enumerate(words):
        if i:
            bs.append(C(32, 8))
        if i == at_:
            for k in range(n):
                x = sym(('letter', k), 8)
                facts += [NOT(eq(x, C(0, 8))), NOT(eq(x, C(32, 8)))]
                bs.append(x)
        else:
            bs += [C(ord(ch), 8) for ch in w]
    bs.append(C(0, 8))

    def fill(I, st, a):
        for i, b in enumerate(bs):
            I.store(st, at(p, i), b)
        return a
    return fill, AND(*facts) if facts else TRUE, bs


def bits(v, s, I, a):
    z = eq(v, C(0, 32))
    return [('number of bits', v), ('bits', ITE(z, C(0, 264), I.load(s, a[1], 33)))]


FILLER = [KEYS[k] for k in (4, 1, 0, 2, 8)]


def words(n):
    return [FILLER[i % len(FILLER)] for i in range(n)]


for _n in (12, 15, 18, 21, 24):
    @obligation('P19', 'words to entropy, %d words' % _n, S, R)
    def _(c, n=_n):
        g = table(c)
        m, e = c.L.arg('mnemonic'), c.L.arg('entropy')
        for i in range(n):
            for k in ((3, 4, 8) if i in (0, n - 1) else (3 + i % 6,)):
                su, pc, _ = text(m, words(n), i, k)
                c.equiv('@mnemonic_to_entropy', 'spec_to_entropy', [m, e], bits, pc=AND(pc, NONNULL(m, e)), setup=partial(g, su), bytefn=True, bounded=True, unroll={None: 5000}, item='mnemonic_to_entropy, %d words, any %d letters as word %d' % (n, k, i + 1))


@obligation('P19', 'malformed sentences', S, R)
def _(c):
    g = table(c)
    m, e = c.L.arg('mnemonic'), c.L.arg('entropy')
    ls = [('%d words' % n, words(n)) for n in list(range(1, 12)) + [13, 14, 16, 17, 19, 20, 22, 23, 25, 26, 27]]
    ls += [('empty text', []), ('leading space', [''] + words(12)), ('leading space, 12 in all', [''] + words(11)), ('trailing space', words(12) + ['']), ('trailing space, 12 in all', words(11) + ['']),
           ('double space, 12 in all', words(5) + [''] + words(6)), ('9 letter word', words(11) + ['x' * 9]), ('10 letter word', ['x' * 10] + words(11)), ('long word at the end', words(11) + ['x' * 40]), ('known word with more letters', words(11) + ['zeros'])]
    for n, w in ls:
        su, pc, _ = text(m, w)
        c.equiv('@mnemonic_to_entropy', 'spec_to_entropy', [m, e], bits, pc=AND(pc, NONNULL(m, e)), setup=partial(g, su), bytefn=True, bounded=True, unroll={None: 5000}, item='mnemonic_to_entropy, ' + n)


def recovered(n):
    """what was recovered from the sentence, as an input of the next step"""
    def mod(I, a, st, ins):
        (_, o, off), = I.ptr_leaves(st, a[0])
        I.store(st, a[1], f('recovered', 264, I.obj(st, o).array(), off), ins)
        return C(n, 32)
    return {'@mnemonic_to_entropy': mod}


@obligation('P19', 'checksum', S, R)
def _(c):
    m = c.L.arg('mnemonic')
    for n in (0, 132, 165, 198, 231, 264):
        c.equiv('@mnemonic_check', 'spec_check', [m], lambda v, s, I, a: [('valid', NOT(eq(v, C(0, 32))))], pc=NONNULL(m), models=recovered(n), item='mnemonic_check, %d bits' % n)
        c.equiv('@impl_check', 'spec_checkm', [m], lambda v, s, I, a: [('valid', NOT(eq(v, C(0, v.w))) if v.w > 1 else v)], pc=NONNULL(m), models=recovered(n), item='checkMnemonic, %d bits' % n)


@obligation('P19', 'entropy of a sentence', S, R)
def _(c):
    m, e = c.L.arg('mnemonic'), c.L.arg('entropy')
    for n in (12, 15, 18, 21, 24):
        su, pc, bs = text(m, ['w'] * n)
        k = n // 3 * 4
        for cap in (0, k - 1, k, k + 1, 64):
            for ok in (1, 0):
                c.equiv('mnemonicToEntropy(char const*, unsigned long, unsigned char*, unsigned long)', 'spec_mnemonicToEntropy', [m, C(len(bs) - 1, 64), e, C(cap, 64)],
                        lambda v, s, I, a: [('length', v), ('entropy', I.load(s, e, 64))], pc=NONNULL(m, e), models=recovered(n * 11 * ok), setup=su, bounded=True, item='mnemonicToEntropy, %d words into %d bytes%s' % (n, cap, '' if ok else ', not recovered'))


@obligation('P19', 'rounds', S, 'constant of the program')
def _(c):
    c.equiv('@impl_rounds', 'spec_rounds', [], RET, item='number of PBKDF2 rounds')


for _n, _p in ((0, 0), (23, 8), (127, 0), (128, 3), (129, 0), (215, 300)):
    @obligation('P19', 'seed, %d characters, passphrase of %d' % (_n, _p), S, 'value graph of the master key equals the rounds of PBKDF2-HMAC-SHA512 with salt "mnemonic" + passphrase, given to the seed derivation')
    def _(c, n=_n, p=_p):
        c.item_limit = 60
        c.res, was = [], c.res

        def go(kind, **kw):
            m, q, k = c.L.arg('mnemonic'), c.L.arg('passphrase'), c.L.arg('key', 'HDPrivateKey')
            fl = c.L.mod.fields('HDPrivateKey')
            c.equiv('@impl_from_mnemonic', 'spec_from_mnemonic', [m, C(n, 64), q, C(p, 64), k],
                    lambda v, s, I, a: [('private key', I.load(s, at(k, fl['num'][0]), 32)), ('chain code', I.load(s, at(k, fl['chainCode'][0]), 32)), ('network', I.load(s, at(k, fl['network'][0]), 8))],
                    pc=NONNULL(m, q, k), item='fromMnemonic, %d characters, passphrase of %d%s' % (n, p, kind), **kw)
        go('', unroll={None: 130})
        if any(r[0] != 'ok' for r in c.res):
            # the rounds as a loop differ or are not comparable: unrolled, in a program with few rounds
            full, c.res = c.res, []
            c.L = c.variant('-include', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'fewrounds.h'))
            go(', few rounds', bounded=True)
            c.res = [r for r in c.res if r[0] == 'violation'] or full
        c.res = was + c.res
