"""Affine domain over GF(2): every bit of a word as an exclusive-or of input bits and a constant.
Canonical, so it decides equality of checksum and bit-regrouping code independently of its phrasing.
Words without an affine form are opaque atoms."""
from terms import *

ONE = '1'
Z = frozenset()
U = frozenset([ONE])
_memo = {}
OPS = ('xor', 'and', 'or', 'lin', 'shl', 'lshr', 'cat', 'ext', 'ite')


def clear():
    _memo.clear()


def atoms_of(t):
    return tuple(frozenset([(t, i)]) for i in range(t.w))


def bits(t):
    r = _memo.get(t)
    if r is None:
        if len(_memo) > 200000:
            _memo.clear()
        # iterative post-order, the graphs are deep
        st = [t]
        while st:
            x = st[-1]
            if x in _memo:
                st.pop()
                continue
            if x.op in ('xor', 'and', 'or', 'not', 'cat', 'ext', 'shl', 'lshr', 'lin', 'ite', 'sx', 'mul'):
                todo = [y for y in _kids(x) if y not in _memo]
                if todo:
                    st.extend(todo)
                    continue
            _memo[x] = _bits(x)
            st.pop()
        r = _memo[t]
    return r


def _kids(x):
    if x.op == 'lin':
        return [z for z, k in x.a[1]]
    if x.op == 'ite':
        at = x.a[0]
        return [y for y in x.a[1:] if y.w] + ([at.a[0]] if at.op == 'eq' and at.a[0].w <= 64 and at.a[1].op == 'c' else [])
    return [y for y in x.a if isinstance(y, T) and y.w]


def cond(at):
    """the bit of a gate"""
    if at.op == 'eq' and at.a[0].w <= 64 and at.a[1].op == 'c':
        k = at.a[1].a[0]
        bs = {b ^ U if (k >> i) & 1 else b for i, b in enumerate(bits(at.a[0]))} - {Z}
        if U in bs:
            return Z
        if len(bs) <= 1:
            return next(iter(bs), Z) ^ U
    return frozenset([('gate', at)])


def _and(x, y):
    if not x or not y:
        return Z
    if x == U:
        return y
    if y == U:
        return x
    if x == y:
        return x
    if x == y ^ U:
        return Z
    return None


def _bits(t):
    op, w = t.op, t.w
    if op == 'c':
        return tuple(U if (t.a[0] >> i) & 1 else Z for i in range(w))
    if op == 'xor':
        r = [Z] * w
        for x in t.a:
            b = bits(x)
            r = [p ^ q for p, q in zip(r, b)]
        return tuple(r)
    if op == 'not':
        return tuple(p ^ U for p in bits(t.a[0]))
    if op in ('and', 'or'):
        r = bits(t.a[0])
        for x in t.a[1:]:
            out = []
            for i, (p, q) in enumerate(zip(r, bits(x))):
                v = _and(p, q)
                if v is None:
                    return atoms_of(t)
                out.append(v if op == 'and' else p ^ q ^ v)
            r = out
        return tuple(r)
    if op == 'cat':
        r = []
        for x in t.a:
            if x.w:
                r += bits(x)
        return tuple(r)
    if op == 'ext':
        return bits(t.a[0])[t.a[1]:t.a[1] + w]
    if op in ('shl', 'lshr') and t.a[1].op == 'c':
        k = t.a[1].a[0]
        if k >= w:
            return atoms_of(t)
        b = bits(t.a[0])
        return (Z,) * k + b[:w - k] if op == 'shl' else b[k:] + (Z,) * k
    if op == 'sx':
        b = bits(t.a[0])
        return b + (b[-1],) * (w - len(b))
    if op == 'lin':
        parts = []
        if t.a[0]:
            parts.append(tuple(U if (t.a[0] >> i) & 1 else Z for i in range(w)))
        for z, k in t.a[1]:
            b = bits(z)
            n = (-k) & ((1 << w) - 1)
            if k & (k - 1) == 0:
                s = k.bit_length() - 1
                parts.append((Z,) * s + b[:w - s])
            elif n & (n - 1) == 0 and not any(b[1:]):
                s = n.bit_length() - 1
                parts.append((Z,) * s + (b[0],) * (w - s))
            else:
                return atoms_of(t)
        r = list(parts[0]) if parts else [Z] * w
        for p in parts[1:]:
            for i in range(w):
                if p[i]:
                    if r[i]:
                        return atoms_of(t)
                    r[i] = p[i]
        return tuple(r)
    if op == 'ite':
        c = cond(t.a[0])
        x, y = bits(t.a[1]), bits(t.a[2])
        out = []
        for i, (p, q) in enumerate(zip(x, y)):
            v = _and(c, p ^ q)
            if v is None:
                return atoms_of(t)
            out.append(q ^ v)
        return tuple(out)
    return atoms_of(t)


def same(a, b):
    return a.w == b.w and 0 < a.w and bits(a) == bits(b)


def norm(t):
    """t with every gate `word == constant` over an affine word replaced by its single-bit tests"""
    m = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > 4000:
            return t
        if x.op == 'eq' and x.a[0].w <= 64 and x.a[1].op == 'c' and x.a[0].op in ('and', 'or', 'xor', 'lin', 'shl', 'lshr', 'ext', 'cat'):
            k = x.a[1].a[0]
            bs = {b ^ U if (k >> i) & 1 else b for i, b in enumerate(bits(x.a[0]))} - {Z}
            if len(bs) <= 8:
                r = TRUE
                for b in sorted(bs, key=_key):
                    r = AND(r, NOT(_bit(b)))
                m[x] = r
        elif x.op == 'eq' and 1 < x.a[0].w <= 64 and 'c' not in (x.a[0].op, x.a[1].op) and any(y.op in ('and', 'or', 'xor', 'lin', 'shl', 'lshr', 'ext', 'cat') for y in x.a):
            # the positions that can differ, packed
            pq = [(p, q) for p, q in zip(bits(x.a[0]), bits(x.a[1])) if p != q]
            if pq and all(len(b) < 2 for z in pq for b in z):
                m[x] = eq(word([p for p, _ in pq], 64), word([q for _, q in pq], 64))
        st.extend(children(x))
    return subst(t, m) if m else t


def _key(b):
    return sorted((q == ONE, 0 if q == ONE else q[0].id if q[0] != 'gate' else q[1].id, 0 if q == ONE or q[0] == 'gate' else q[1]) for q in b)


def _bit(b):
    """condition: the bit is one"""
    r = FALSE
    for q in b:
        if q == ONE:
            y = TRUE
        elif q[0] == 'gate':
            y = node(q[1], TRUE, FALSE)
        else:
            z = zext(q[0], max(8, q[0].w))
            y = NOT(eq(band(z, C(1 << q[1], z.w)), C(0, z.w)))
        r = ITE(r, NOT(y), y)
    return r


def lowbits(x, n):
    if n == 1 and x.op not in ('c', 'ite', 'lshr', 'cat') and x.w > 1:
        return mk('and', x.w, x, C(1, x.w))       # not split into a gate
    return band(x, C((1 << n) - 1, x.w))


def word(bs, w):
    """the number whose bits (each a single input bit or a constant) are bs, in a canonical form"""
    r = C(0, w)
    i = 0
    while i < len(bs):
        if not bs[i]:
            i += 1
            continue
        if bs[i] == U:
            r = add(r, C(1 << i, w))
            i += 1
            continue
        (t, k), = bs[i]
        n = 1
        while i + n < len(bs) and bs[i + n] == frozenset([(t, k + n)]):
            n += 1
        v = lowbits(lshr(t, C(k, t.w)), n)
        r = add(r, scale(zext(v, w) if v.w <= w else trunc(v, w), 1 << i))
        i += n
    return r
