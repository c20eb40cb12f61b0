"""Finite value-set domain for terms that depend on one or two bytes: a term over a single byte is
represented by its table of 256 values, a condition by the set of byte values that satisfy it."""
from terms import *
import terms as _T
INTERP = {'ite', 'eq', 'ult', 'slt', 'lin', 'cat', 'ext', 'and', 'or', 'xor', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'sx', 'not', 'c', 'bit'}
_BA = {}
TOO = frozenset(['*'])


def _isatom(t):
    if t.op == 'sel':
        return not (t.a[0].op == 'abytes')
    return t.op not in INTERP


def batoms(t, lim=2):
    """the byte atoms t depends on, or None when there are more than lim or some are not bytes"""
    r = _BA.get(t)
    if r is None:
        st = [(t, 0)]
        while st:
            x, done = st.pop()
            if x in _BA:
                continue
            if x.op == 'c':
                _BA[x] = frozenset()
                continue
            if x.op == 'nil':
                _BA[x] = frozenset()
                continue
            if _isatom(x):
                _BA[x] = frozenset([x]) if x.w == 8 else TOO
                continue
            ch = [x.a[1]] if x.op == 'sel' else [z for z in children(x)]
            if not done:
                st.append((x, 1))
                st.extend((z, 0) for z in ch if z not in _BA)
            else:
                s = frozenset()
                for z in ch:
                    s = TOO if (_BA[z] is TOO or s is TOO) else s | _BA[z]
                if s is not TOO and len(s) > 3:
                    s = TOO
                _BA[x] = s
        r = _BA[t]
    return None if r is TOO or len(r) > lim else r


class NoTable(Exception):
    pass


def _sv(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def table(t, atoms):
    """list of the values of t, indexed by the atoms' values (first atom least significant)"""
    n = 1 << (8 * len(atoms))
    memo = {}
    order = []
    st = [(t, 0)]
    seen = set()
    while st:
        x, d = st.pop()
        if d:
            order.append(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        st.append((x, 1))
        if x in atoms or x.op in ('c', 'nil'):
            continue
        ch = [x.a[1]] if x.op == 'sel' else children(x)
        for z in ch:
            if z not in seen:
                st.append((z, 0))
    if n > 256 and len(order) > 120:
        raise NoTable()
    bad = set()
    for x in order:
        op, w = x.op, x.w
        M = (1 << w) - 1 if w else 0
        if x in atoms:
            k = 8 * atoms.index(x)
            memo[x] = [(i >> k) & 255 for i in range(n)]
            continue
        if op == 'c':
            memo[x] = [x.a[0]] * n
            continue
        if op == 'nil':
            continue
        A = [memo[z] for z in x.a if isinstance(z, T) and z in memo] if op not in ('lin', 'sel') else None
        if op == 'ite':
            c, p, q = A
            r = [a if z else b for z, a, b in zip(c, p, q)]
        elif op == 'eq':
            r = [int(a == b) for a, b in zip(*A)]
        elif op == 'ult':
            r = [int(a < b) for a, b in zip(*A)]
        elif op == 'slt':
            k = x.a[0].w
            r = [int(_sv(a, k) < _sv(b, k)) for a, b in zip(*A)]
        elif op == 'lin':
            r = [x.a[0]] * n
            for z, k in x.a[1]:
                r = [a + k * b for a, b in zip(r, memo[z])]
            r = [a & M for a in r]
        elif op == 'cat':
            r = [0] * n
            s = 0
            for p in x.a:
                if p.op == 'nil':
                    continue
                r = [a | b << s for a, b in zip(r, memo[p])]
                s += p.w
        elif op == 'ext':
            r = [(a >> x.a[1]) & M for a in A[0]]
        elif op == 'sel':
            d = x.a[0].a[0]
            k = w // 8
            r = []
            for i, o in enumerate(memo[x.a[1]]):
                if o + k > len(d):
                    if n > 256:
                        raise NoTable()
                    bad.add(i)      # outside the table: no value
                r.append(int.from_bytes(d[o:o + k], 'little') if o + k <= len(d) else 0)
        elif op in ('and', 'or', 'xor', 'mul'):
            r = A[0]
            if len(A) == 1:      # the same operand twice
                raise NoTable()
            for b in A[1:]:
                r = [(p & q if op == 'and' else p | q if op == 'or' else p ^ q if op == 'xor' else p * q & M) for p, q in zip(r, b)]
        elif op in ('udiv', 'urem'):
            if any(b == 0 for b in A[1]):
                raise NoTable()
            r = [p // q if op == 'udiv' else p % q for p, q in zip(*A)]
        elif op in ('shl', 'lshr', 'ashr'):
            if any(b >= w for b in A[1]):
                raise NoTable()
            if op == 'shl':
                r = [(p << q) & M for p, q in zip(*A)]
            elif op == 'lshr':
                r = [p >> q for p, q in zip(*A)]
            else:
                r = [(_sv(p, w) >> q) & M for p, q in zip(*A)]
        elif op == 'sx':
            k = x.a[0].w
            r = [_sv(a, k) & M for a in A[0]]
        elif op == 'not':
            r = [~a & M for a in A[0]]
        else:
            raise NoTable()
        memo[x] = r
    if bad:
        return [None if i in bad else v for i, v in enumerate(memo[t])]
    return memo[t]


_TB = {}


def table1(t, x):
    r = _TB.get((t, x))
    if r is None:
        try:
            r = table(t, [x])
        except NoTable:
            r = False
        _TB[(t, x)] = r
    return r or None


def literals(pc):
    out = []
    while pc.op == 'ite':
        at, h, l = pc.a
        if l is FALSE:
            out.append((at, 1))
            pc = h
        elif h is FALSE:
            out.append((at, 0))
            pc = l
        else:
            # a disjunction: the whole rest is one literal
            out.append((pc, 1))
            break
    return out


FULL = (1 << 256) - 1
_MK = {}
_SB = {}


def setof(t, x):
    """bit set of the values of byte x for which condition t holds, None if not a condition on x alone"""
    k = (t, x)
    r = _SB.get(k, 0)
    if r == 0:
        tb = table1(t, x)
        r = None if tb is None or None in tb else sum(1 << i for i, v in enumerate(tb) if v)
        _SB[k] = (r,) if r is not None else None
        return r
    return r[0] if r is not None else None


def mask(pc, x):
    """over-approximation of the values of byte x possible under pc (exact for conditions on x alone)"""
    if pc is TRUE:
        return FULL
    if pc is FALSE:
        return 0
    r = _MK.get((pc, x))
    if r is None:
        at, h, l = pc.a
        mh, ml = mask(h, x), mask(l, x)
        b = batoms(at, 1)
        s = setof(at, x) if b is not None and x in b else None
        r = mh | ml if s is None else (s & mh) | (~s & FULL & ml)
        _MK[(pc, x)] = r
    return r


_BX = {}


def bytes_of(pc):
    """byte atoms that occur as the only unknown of some condition in pc"""
    r = _BX.get(pc)
    if r is None:
        if pc.op != 'ite':
            r = frozenset()
        else:
            b = batoms(pc.a[0], 1)
            r = bytes_of(pc.a[1]) | bytes_of(pc.a[2]) | (b or frozenset())
        _BX[pc] = r
    return r


def masks(pc):
    return {x: mask(pc, x) for x in bytes_of(pc)}


def under(c, pc):
    """condition c simplified by the byte values that pc allows"""
    if c.op != 'ite' or pc.op != 'ite':
        return c
    b = batoms(c, 1)
    if b:
        x = next(iter(b))
        m = mask(pc, x)
        if m != FULL:
            s = setof(c, x)
            if s is not None:
                if m & ~s == 0:
                    return TRUE
                if m & s == 0:
                    return FALSE
        return c
    if c.a[1].op == 'c' and c.a[2].op == 'c':
        return c
    return _under(c, pc)


def _under(c, pc):
    at, h, l = c.a
    p = _T.node(at, TRUE, FALSE)
    q = under(p, pc)
    if q is TRUE:
        return under(h, pc)
    if q is FALSE:
        return under(l, pc)
    return ITE(p, under(h, pc), under(l, pc))


def decide(a, b, pc):
    """True if a and b agree on all byte values that pc allows; None if not applicable"""
    x = batoms(a), batoms(b)
    if x[0] is None or x[1] is None:
        return None
    at = list(x[0] | x[1])
    if len(at) > 2 or not at:
        return None
    try:
        if len(at) == 1:
            p, q = table1(a, at[0]), table1(b, at[0])
            if p is None or q is None:
                return None
            k = mask(pc, at[0])
            return all(u == v and u is not None or not k >> i & 1 for i, (u, v) in enumerate(zip(p, q)))
        p, q = table(a, at), table(b, at)
    except NoTable:
        return None
    k0, k1 = mask(pc, at[0]), mask(pc, at[1])
    ok = [True] * 65536
    for lit, v in literals(pc):
        z = batoms(lit)
        if z and len(z) == 2 and z <= set(at):
            try:
                t = table(lit, at)
            except NoTable:
                continue
            ok = [o and bool(y) == bool(v) for o, y in zip(ok, t)]
    for i, (u, v) in enumerate(zip(p, q)):
        if u != v and ok[i] and k0 >> (i & 255) & 1 and k1 >> (i >> 8) & 1:
            return False
    return True


def empty(pc):
    return any(k == 0 for k in masks(pc).values())


_CM = {}


def canon(t):
    """normal form: maximal subtrees over a single byte become tables / indicator sets"""
    if t.op == 'c' or t.w > 64 or t.w < 1:
        return t
    r = _CM.get(t)
    if r is None:
        b = batoms(t, 1)
        if b is None and t.op == 'ite':
            r = ITE(canon1(_T.node(t.a[0], TRUE, FALSE)), canon(t.a[1]), canon(t.a[2]))
        else:
            r = canon1(t)
        _CM[t] = r
    return r


def canon1(t):
    """normal form of a term over a single byte"""
    b = batoms(t, 1)
    if not b or len(b) != 1:
        return t
    x = next(iter(b))
    if t is x:
        return t
    if t.w == 1 and t.op == 'ite' and t.a[1].op == 'c' and t.a[2].op == 'c' and t.a[0].op in ('eq', 'ult') and x in t.a[0].a:
        return t
    if t.op in ('cat', 'ext', 'lin') and all(z is x or z.op in ('c', 'nil') for z in children(t)):
        return t
    if t.op == 'sel' and t.a[1].op == 'cat' and t.a[1].a[0] is x and len(t.a[0].a[0]) == 256:
        return t
    tb = table1(t, x)
    if tb is None or None in tb:
        return t
    vs = set(tb)
    if len(vs) == 1:
        return C(tb[0], t.w)
    if t.w == 1:
        n = sum(tb)
        if n == 1:
            return eq(x, C(tb.index(1), 8))
        if n == 255:
            return NOT(eq(x, C(tb.index(0), 8)))
        k = next(i for i in range(256) if tb[i] != tb[0])
        if all(v == tb[k] for v in tb[k:]):
            r = ult(x, C(k, 8))
            return r if tb[0] else NOT(r)
        neg = tb[0]
        r = NOT(eq(sel(mk('abytes', 0, bytes(v ^ neg for v in tb)), zext(x, 64), 1), C(0, 8)))
        return NOT(r) if neg else r
    if t.w % 8:
        return t
    k = t.w // 8
    if max(vs) < 256:
        return zext(sel(mk('abytes', 0, bytes(tb)), zext(x, 64), 1), t.w)
    if len(vs) <= 2:
        return t
    if all(_sv(v, t.w) >= -128 and _sv(v, t.w) < 128 for v in vs):
        return sext(sel(mk('abytes', 0, bytes(v & 255 for v in tb)), zext(x, 64), 1), t.w)
    return t


def renorm(t, pc, limit=20000):
    """t with every maximal subterm over a single byte replaced by its normal form on the values pc allows"""
    m = {}
    seen = set()
    st = [t]
    sz = 0
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        sz += 1
        if sz > limit:
            return t
        if x.op not in ('c', 'nil') and (x.w or x.op in ('eq', 'ult', 'slt')) and x.w <= 64:
            b = batoms(x, 1)
            if b and len(b) == 1:
                y = next(iter(b))
                if x is not y:
                    r = _norm1(x, y, pc)
                    if r is not None and r is not x:
                        m[x] = r
                continue
        st.extend(children(x))
    return subst(t, m) if m else t


def _norm1(t, x, pc):
    k = mask(pc, x)
    if not k:
        return None
    tb = table1(t, x)
    if tb is None:
        return None
    w = t.w or 1
    vs = {v for i, v in enumerate(tb) if k >> i & 1}
    if None in vs:
        return None
    if len(vs) == 1:
        return C(vs.pop(), w)
    if w == 1:
        return NOT(eq(sel(mk('abytes', 0, bytes(int(bool(v)) if k >> i & 1 else 0 for i, v in enumerate(tb))), zext(x, 64), 1), C(0, 8)))
    if w < 8:
        return None
    if all(v == i for i, v in enumerate(tb) if k >> i & 1):
        return zext(x, w)
    if max(vs) < 256:
        return zext(sel(mk('abytes', 0, bytes(v if k >> i & 1 else 0 for i, v in enumerate(tb))), zext(x, 64), 1), w)
    return None
