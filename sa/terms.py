"""Canonical hash-consed terms (Herbrand universe for value numbering).

Values are bit-vectors of width w.  Booleans are width-1 MTBDDs over comparison atoms;
conditionals of any width are MTBDDs whose inner nodes are the same atoms.  Equal
canonical form => equal value for every input.
"""
import sys
sys.setrecursionlimit(20000)

_tab = {}
_next = [1]
LIFT_LIMIT = 96


class T:
    __slots__ = ('op', 'w', 'a', 'id', '_sup', '_nl', '_rng')

    def __repr__(self):
        return show(self)


def mk(op, w, *a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.id = _next[0]
        t._sup = None
        t._nl = None
        t._rng = None
        _next[0] += 1
        _tab[k] = t
    return t


def C(v, w):
    return mk('c', w, v & ((1 << w) - 1))


TRUE = C(1, 1)
FALSE = C(0, 1)


def sym(name, w):
    return mk('sym', w, name)


def isc(t):
    return t.op == 'c'


def val(t):
    return t.a[0]


def sval(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


# ------------------------------------------------------------------ MTBDD core
NOSUP = frozenset()


def sup(t):
    if t._sup is None:
        if t.op == 'ite':
            t._sup = frozenset([t.a[0]]) | sup(t.a[1]) | sup(t.a[2])
        else:
            t._sup = NOSUP
    return t._sup


def nleaves(t):
    if t._nl is None:
        if t.op == 'ite':
            t._nl = nleaves(t.a[1]) + nleaves(t.a[2])
        else:
            t._nl = 1
    return t._nl


_subj = {}   # root -> list of (atom, bit offset, width) comparing a part of root with constants


def _root(x):
    """(root key, bit offset) of a value that is a bit range of something"""
    if x.op == 'ext':
        k, o = _root(x.a[0])
        return k, o + x.a[1]
    if x.op == 'sel':
        A, off = x.a[:2]
        if off.op == 'c':
            return (A, None), 8 * off.a[0]
        if off.op == 'lin':
            c = off.a[0]
            if c >> 63:
                c -= 1 << 64
            return (A, off.a[1]), 8 * c
        return (A, ((off, 1),)), 0
    return x, 0


def _register(atom):
    if len(atom.a) < 2:
        return
    if isinstance(atom.a[1], T) and atom.a[1].op == 'c' and atom.op in ('eq', 'ult'):
        x = atom.a[0]
        if x.op == 'and' and len(x.a) == 2 and x.a[1].op == 'c' and atom.op == 'eq':
            k, o = _root(x.a[0])
            l = _subj.setdefault(k, [])
            e = (atom, o, -x.w)
        else:
            k, o = _root(x)
            l = _subj.setdefault(k, [])
            e = (atom, o, x.w)
        if e not in l:
            l.append(e)


def atom(op, *a):
    k = mk(op, 1, *a)
    _register(k)
    return node(k, TRUE, FALSE)


def implied(at, v):
    """dict atom->bool implied by literal (at == v): atoms over the same bits"""
    if at.op not in ('eq', 'ult') or at.a[1].op != 'c':
        return {}
    x = at.a[0]
    if x.op == 'and' and at.op == 'eq' and len(x.a) == 2 and x.a[1].op == 'c':
        # a masked word: decides equalities of (a range containing) the whole word
        key, o1 = _root(x.a[0])
        l = _subj.get(key)
        if not l or len(l) < 2:
            return {}
        m, k = x.a[1].a[0], at.a[1].a[0]
        out = {}
        for b, o2, w2 in l:
            if b is at or b.op != 'eq':
                continue
            if w2 > 0 and o2 <= o1 and o1 + x.w <= o2 + w2:
                if (((b.a[1].a[0] >> (o1 - o2)) & m) == k) != v:
                    out[b] = False
            elif w2 == -x.w and o2 == o1 and b.a[0].a[1].a[0] == m and v:
                out[b] = False
        return out
    key, o1 = _root(x)
    l = _subj.get(key)
    if not l or len(l) < 2:
        return {}
    k = at.a[1].a[0]
    w1 = x.w
    lo, hi = 0, (1 << w1) - 1
    if at.op == 'eq':
        if v:
            lo = hi = k
        elif k == 0:
            lo = 1
        elif k == hi:
            hi = k - 1
        else:
            return {}
    elif v:
        hi = k - 1
    else:
        lo = k
    out = {}
    for b, o2, w2 in l:
        if b is at:
            continue
        if w2 < 0:
            w2 = -w2
            if lo == hi and o1 <= o2 and o2 + w2 <= o1 + w1:
                out[b] = ((lo >> (o2 - o1)) & b.a[0].a[1].a[0]) == b.a[1].a[0]
            continue
        if o2 == o1 and w2 == w1:
            a, z = lo, hi
        elif o1 <= o2 and o2 + w2 <= o1 + w1:
            s = o2 - o1
            a, z = lo >> s, hi >> s
            if (a >> w2) != (z >> w2):
                continue
            m = (1 << w2) - 1
            a &= m
            z &= m
        elif o2 <= o1 and o1 + w1 <= o2 + w2:
            s = o1 - o2
            a = lo << s
            if o1 + w1 == o2 + w2:
                z = (hi << s) | ((1 << s) - 1)
            else:
                z = (1 << w2) - 1
        else:
            continue
        j = b.a[1].a[0]
        if b.op == 'eq':
            if j < a or j > z:
                out[b] = False
            elif a == z:
                out[b] = True
        elif z < j:
            out[b] = True
        elif a >= j:
            out[b] = False
    return out


_restr = {}


def restrict_lits(t, lits):
    """cofactor t by dict atom->bool"""
    s = sup(t)
    if not s:
        return t
    use = {a: v for a, v in lits.items() if a in s}
    if not use:
        return t
    key = (t, tuple(sorted((a.id, v) for a, v in use.items())))
    r = _restr.get(key)
    if r is not None:
        return r
    at, h, l = t.a
    if at in use:
        r = restrict_lits(h if use[at] else l, lits)
    else:
        r = node(at, restrict_lits(h, lits), restrict_lits(l, lits))
    _restr[key] = r
    return r


def node(at, h, l):
    """requires at above tops of h,l in the order"""
    if h is l:
        return h
    if sup(h):
        im = implied(at, True)
        if im:
            h = restrict_lits(h, im)
    if sup(l):
        im = implied(at, False)
        if im:
            l = restrict_lits(l, im)
    if h is l:
        return h
    # ite(x==k, k, x) -> x
    if at.op == 'eq' and h.op == 'c' and h.w > 1 and at.a[1].op == 'c':
        x, k = at.a
        if l is x and k is h:
            return l
        if l.op != 'ite' and l.op != 'c' and contains(l, x) and h.w == l.w:
            # l with x:=k equals h ?
            if subst(l, {x: k}) is h:
                return l
    return mk('ite', h.w, at, h, l)


def top(*ts):
    best = None
    for t in ts:
        if t.op == 'ite' and (best is None or t.a[0].id < best.id):
            best = t.a[0]
    return best


def cof(t, at, v):
    if t.op == 'ite' and t.a[0] is at:
        return t.a[1] if v else t.a[2]
    return t


_itec = {}


def ITE(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if t is TRUE and e is FALSE:
        return c
    if c is t:
        t = TRUE
    if c is e:
        e = FALSE
    k = (c, t, e)
    r = _itec.get(k)
    if r is not None:
        return r
    at = top(c, t, e)
    h = ITE(cof(c, at, 1), cof(t, at, 1), cof(e, at, 1))
    l = ITE(cof(c, at, 0), cof(t, at, 0), cof(e, at, 0))
    r = node(at, h, l)
    _itec[k] = r
    return r


def NOT(c):
    return ITE(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ITE(r, c, FALSE)
        if r is FALSE:
            return r
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ITE(r, TRUE, c)
        if r is TRUE:
            return r
    return r


def IMP(a, b):
    return ITE(a, b, TRUE)


_gcof = {}


def given(t, care):
    """simplify t on the care set (restrict operator); result equals t wherever care holds"""
    if care is TRUE or not sup(t):
        return t
    if care is FALSE:
        return t
    if not (sup(t) & sup(care)):
        # may still interact by theory
        if not _theory_touch(t, care):
            return t
    k = (t, care)
    r = _gcof.get(k)
    if r is not None:
        return r
    at = top(t, care)
    ch, cl = cof(care, at, 1), cof(care, at, 0)
    if care.op == 'ite' and care.a[0] is at and at not in sup(t):
        # at irrelevant to t: but implied literals may matter
        if ch is FALSE:
            r = given(restrict_lits(t, implied(at, False)), cl)
        elif cl is FALSE:
            r = given(restrict_lits(t, implied(at, True)), ch)
        else:
            r = given(t, OR(ch, cl))
    elif ch is FALSE:
        r = given(restrict_lits(cof(t, at, 0), {**implied(at, False), at: False}), cl)
    elif cl is FALSE:
        r = given(restrict_lits(cof(t, at, 1), {**implied(at, True), at: True}), ch)
    else:
        r = node(at, given(cof(t, at, 1), ch), given(cof(t, at, 0), cl))
    _gcof[k] = r
    return r


def _theory_touch(t, care):
    st = {_sroot(a) for a in sup(t) if a.op in ('eq', 'ult')}
    for a in sup(care):
        if a.op in ('eq', 'ult') and _sroot(a) in st:
            return True
    return False


def _sroot(a):
    x = a.a[0]
    if x.op == 'and' and len(x.a) == 2 and x.a[1].op == 'c':
        x = x.a[0]
    return _root(x)[0]


_l1 = {}


def lift1(key, f, x):
    if x.op != 'ite':
        return f(x)
    k = (key, x)
    r = _l1.get(k)
    if r is None:
        r = ITE(node(x.a[0], TRUE, FALSE), lift1(key, f, x.a[1]), lift1(key, f, x.a[2]))
        _l1[k] = r
    return r


_l2 = {}


def lift2(key, f, x, y):
    if x.op != 'ite' and y.op != 'ite':
        return f(x, y)
    k = (key, x, y)
    r = _l2.get(k)
    if r is None:
        at = top(x, y)
        h = lift2(key, f, cof(x, at, 1), cof(y, at, 1))
        l = lift2(key, f, cof(x, at, 0), cof(y, at, 0))
        r = ITE(node(at, TRUE, FALSE), h, l)
        _l2[k] = r
    return r


def leaves(t, care=TRUE, pre=None):
    """yield (condition, leaf) pairs"""
    out = {}

    def rec(x, c):
        if c is FALSE:
            return
        if x.op == 'ite':
            a = node(x.a[0], TRUE, FALSE)
            rec(x.a[1], AND(c, a))
            rec(x.a[2], AND(c, NOT(a)))
        else:
            out[x] = OR(out.get(x, FALSE), c)
    rec(t, care)
    return list((c, x) for x, c in out.items())


def leafset(t):
    seen = set()
    out = []

    def rec(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'ite':
            rec(x.a[1])
            rec(x.a[2])
        else:
            out.append(x)
    rec(t)
    return out


# ------------------------------------------------------------------ ranges
def rng(t):
    """(lo, hi) unsigned"""
    r = t._rng
    if r is None:
        r = _range(t)
        t._rng = r
    return r


def _range(t):
    full = (0, (1 << t.w) - 1)
    op = t.op
    if op == 'c':
        return (t.a[0], t.a[0])
    if op == 'ite':
        a, b = rng(t.a[1]), rng(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'cat':
        lo = hi = 0
        s = 0
        for p in t.a:
            r = rng(p)
            lo += r[0] << s
            hi += r[1] << s
            s += p.w
        return (lo, hi)
    if op == 'lin':
        lo = hi = t.a[0]
        M = 1 << t.w
        for x, k in t.a[1]:
            r = rng(x)
            if k >> (t.w - 1):
                kk = k - M
                lo += kk * r[1]
                hi += kk * r[0]
            else:
                lo += k * r[0]
                hi += k * r[1]
        if lo < 0 or hi >= M:
            # try interpreting the constant as negative
            lo -= M
            hi -= M
            if 0 <= lo and hi < M:
                return (lo, hi)
            return full
        return (lo, hi)
    if op == 'and':
        hi = full[1]
        for x in t.a:
            hi = min(hi, rng(x)[1])
        return (0, hi)
    if op in ('or', 'xor'):
        m = 0
        for x in t.a:
            m |= (1 << rng(x)[1].bit_length()) - 1
        lo = max(rng(x)[0] for x in t.a) if op == 'or' else 0
        return (lo, min(m, full[1]))
    if op == 'lshr' and t.a[1].op == 'c':
        r = rng(t.a[0])
        return (r[0] >> t.a[1].a[0], r[1] >> t.a[1].a[0])
    if op == 'udiv' and t.a[1].op == 'c' and t.a[1].a[0]:
        r = rng(t.a[0])
        return (r[0] // t.a[1].a[0], r[1] // t.a[1].a[0])
    if op == 'urem' and t.a[1].op == 'c' and t.a[1].a[0]:
        return (0, min(rng(t.a[0])[1], t.a[1].a[0] - 1))
    if op == 'mul':
        lo = hi = 1
        for x in t.a:
            r = rng(x)
            lo *= r[0]
            hi *= r[1]
        return (lo, hi) if hi <= full[1] else full
    if op == 'sym' and isinstance(t.a[0], tuple) and t.a[0][0] in ('n', 'b', 'tmpv') and t.w == 64:
        return (0, (1 << 31) - 1)      # A-NOWRAP: iteration counters
    if op == 'f' and t.a[0] in BOUNDED:
        return BOUNDED[t.a[0]]
    if t in SYMRNG:
        return SYMRNG[t]
    return full


BOUNDED = {}
SYMRNG = {}


# ------------------------------------------------------------------ arithmetic
def _small(x):
    return nleaves(x) <= LIFT_LIMIT


def _lift_ok(x, y):
    return nleaves(x) * nleaves(y) <= LIFT_LIMIT or (x.op == 'ite' and y.op == 'ite' and nleaves(x) <= LIFT_LIMIT and nleaves(y) <= LIFT_LIMIT and sup(x) & sup(y))


def _linparts(t):
    if t.op == 'c':
        return t.a[0], ()
    if t.op == 'lin':
        return t.a[0], t.a[1]
    if t.op == 'cat' and not (len(t.a) == 2 and t.a[1].op == 'c' and t.a[1].a[0] == 0):
        c = 0
        d = {}
        p = 0
        for part in t.a:
            if part.op == 'c':
                c += part.a[0] << p
            else:
                z = zext(part, t.w)
                d[z] = d.get(z, 0) + (1 << p)
            p += part.w
        return c, tuple(d.items())
    return 0, ((t, 1),)


def mklin(w, c, d):
    M = 1 << w
    items = [(x, k % M) for x, k in d.items() if k % M]
    c %= M
    if not items:
        return C(c, w)
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    r = _disjoint(w, c, items)
    if r is not None:
        return r
    items.sort(key=lambda p: p[0].id)
    return mk('lin', w, c, tuple(items))


def _disjoint(w, c, items):
    """sum/or of byte-disjoint shifted fields -> cat"""
    if w % 8 or w > 512:
        return None
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return None
    fields = []
    for x, k in items:
        if k & (k - 1):
            return None
        s = k.bit_length() - 1
        if s % 8:
            return None
        if x.op == 'lin' and s == 0:
            return None
        p = 0
        for part in (x.a if x.op == 'cat' else (x,)):
            if part.op == 'c':
                if part.a[0]:
                    v = (part.a[0] << (p + s)) & ((1 << w) - 1)
                    if c & v:
                        return None
                    # exact byte-disjointness for constants as well
                    for i in range(w // 8):
                        if (c >> (8 * i)) & 255 and (v >> (8 * i)) & 255:
                            return None
                    c |= v
            else:
                nb = (rng(part)[1].bit_length() + 7) // 8 * 8
                if s + p < w and nb:
                    fields.append((s + p, min(nb, w - s - p), part))
            p += part.w
    fields.sort(key=lambda f: f[0])
    pos = 0
    parts = []
    for s, nb, x in fields:
        if s < pos:
            return None
        if s > pos:
            parts.append(C(c >> pos, s - pos))
        if (c >> s) & ((1 << nb) - 1):
            return None
        parts.append(ext(x, 0, nb))
        pos = s + nb
    if pos < w:
        parts.append(C(c >> pos, w - pos))
    return cat(parts)


def add(x, y):
    if x.op == 'c' and x.a[0] == 0:
        return y
    if y.op == 'c' and y.a[0] == 0:
        return x
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('add', add, x, y)
    if x.op == 'ptr':
        return mkptr(x.a[0], add(x.a[1], y))
    if y.op == 'ptr':
        return mkptr(y.a[0], add(y.a[1], x))
    c1, p1 = _linparts(x)
    c2, p2 = _linparts(y)
    d = {}
    for t, k in p1:
        d[t] = d.get(t, 0) + k
    for t, k in p2:
        d[t] = d.get(t, 0) + k
    # expand cats that came from _disjoint when they block cancellation
    return mklin(x.w, c1 + c2, d)


def scale(x, k):
    k %= (1 << x.w)
    if k == 0:
        return C(0, x.w)
    if k == 1:
        return x
    if x.op == 'ite' and _small(x):
        return lift1(('scale', k), lambda z: scale(z, k), x)
    c, p = _linparts(x)
    return mklin(x.w, c * k, {t: kk * k for t, kk in p})


def neg(x):
    return scale(x, -1)


def sub(x, y):
    if x.op == 'c' and x.a[0] == 0 and y.op == 'ptr':
        return sym(('undef', 'null minus pointer'), x.w)      # not defined by the language
    if x is y:
        return C(0, x.w)
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('sub', sub, x, y)
    if x.op == 'ptr' and y.op == 'ptr' and x.a[0] == y.a[0]:
        return sub(x.a[1], y.a[1])
    if x.op == 'ptr' and y.op == 'c':
        return mkptr(x.a[0], sub(x.a[1], y))
    return add(x, neg(y))


def mul(x, y):
    if x.op == 'c':
        return scale(y, x.a[0])
    if y.op == 'c':
        return scale(x, y.a[0])
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('mul', mul, x, y)
    fs = []
    for z in (x, y):
        if z.op == 'mul':
            fs += z.a
        else:
            fs.append(z)
    fs.sort(key=lambda z: z.id)
    return mk('mul', x.w, *fs)


def udiv(x, y):
    if y.op == 'c':
        k = y.a[0]
        if k == 1:
            return x
        if k and not (k & (k - 1)):
            return lshr(x, C(k.bit_length() - 1, x.w))
        if x.op == 'c' and k:
            return C(x.a[0] // k, x.w)
        if k and rng(x)[1] < k:
            return C(0, x.w)
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('udiv', udiv, x, y)
    return mk('udiv', x.w, x, y)


def urem(x, y):
    if y.op == 'c':
        k = y.a[0]
        if k and not (k & (k - 1)):
            return band(x, C(k - 1, x.w))
        if x.op == 'c' and k:
            return C(x.a[0] % k, x.w)
        if k and rng(x)[1] < k:
            return x
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('urem', urem, x, y)
    return mk('urem', x.w, x, y)


def _nonneg(x):
    return rng(x)[1] < (1 << (x.w - 1))


def sdiv(x, y):
    if _nonneg(x) and _nonneg(y):
        return udiv(x, y)
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('sdiv', sdiv, x, y)
    if x.op == 'c' and y.op == 'c' and y.a[0]:
        a, b = sval(x), sval(y)
        q = abs(a) // abs(b)
        return C(q if (a < 0) == (b < 0) else -q, x.w)
    return mk('sdiv', x.w, x, y)


def srem(x, y):
    if _nonneg(x) and _nonneg(y):
        return urem(x, y)
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('srem', srem, x, y)
    if x.op == 'c' and y.op == 'c' and y.a[0]:
        a, b = sval(x), sval(y)
        return C(abs(a) % abs(b) * (1 if a >= 0 else -1), x.w)
    return mk('srem', x.w, x, y)


def shl(x, y):
    if y.op == 'c':
        k = y.a[0]
        if k >= x.w:
            return C(0, x.w)
        if x.op in ('and', 'or', 'xor') and k % 8 == 0 and k:
            # keep low bits exactly: shift of a bytewise value
            return cat([C(0, k), ext(x, 0, x.w - k)])
        return scale(x, 1 << k)
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('shl', shl, x, y)
    return mk('shl', x.w, x, y)


def lshr(x, y):
    if y.op == 'c':
        k = y.a[0]
        if k == 0:
            return x
        if k >= x.w:
            return C(0, x.w)
        if x.op == 'c':
            return C(x.a[0] >> k, x.w)
        if rng(x)[1] >> k == 0:
            return C(0, x.w)
        if x.op == 'ite' and _small(x):
            return lift1(('lshr', k), lambda z: lshr(z, y), x)
        if k % 8 == 0 and x.w % 8 == 0:
            return zext(ext(x, k, x.w - k), x.w)
        if x.op == 'lshr' and x.a[1].op == 'c':
            return lshr(x.a[0], C(x.a[1].a[0] + k, x.w))
        if x.op == 'cat':
            # drop leading zero parts: cat(a,0..) >> k  = zext(a >> k)
            last = x.a[-1]
            if last.op == 'c' and last.a[0] == 0:
                body = cat(list(x.a[:-1]))
                if body.w > 1 and k < body.w:
                    return zext(lshr(body, C(k, body.w)), x.w)
            # drop whole low parts
            if x.a[0].w <= k:
                d = x.a[0].w
                rest = cat(list(x.a[1:]))
                return zext(lshr(rest, C(k - d, rest.w)), x.w)
        if x.op in ('and', 'or', 'xor') and any(z.op == 'c' for z in x.a):
            f = {'and': band, 'or': bor, 'xor': bxor}[x.op]
            r = None
            for z in x.a:
                zz = lshr(z, y)
                r = zz if r is None else f(r, zz)
            return r
        return mk('lshr', x.w, x, y)
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('lshr', lshr, x, y)
    return mk('lshr', x.w, x, y)


def ashr(x, y):
    if _nonneg(x):
        return lshr(x, y)
    if y.op == 'c':
        if x.op == 'c':
            return C(sval(x) >> min(y.a[0], x.w - 1), x.w)
        if y.a[0] == 0:
            return x
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2('ashr', ashr, x, y)
    return mk('ashr', x.w, x, y)


# ------------------------------------------------------------------ bitwise
def _bounds(t):
    """byte boundaries of a cat"""
    if t.op == 'cat':
        out = []
        p = 0
        for x in t.a:
            p += x.w
            out.append(p)
        return out
    return [t.w]


def _bitop(name, x, y, f):
    w = x.w
    if w == 1:
        if name == 'and':
            return AND(x, y)
        if name == 'or':
            return OR(x, y)
        return ITE(x, NOT(y), y)
    if x.op == 'c' and y.op == 'c':
        return C(f(x.a[0], y.a[0]), w)
    if (x.op == 'ite' or y.op == 'ite') and _lift_ok(x, y):
        return lift2(name, lambda p, q: _bitop(name, p, q, f), x, y)
    if x.op == 'c':
        x, y = y, x
    if y.op == 'c':
        k = y.a[0]
        full = (1 << w) - 1
        if name == 'and':
            if k == 0:
                return y
            if k == full:
                return x
            if rng(x)[1] & ~k == 0 and (k & (k + 1)) == 0 and rng(x)[1] <= k:
                return x
            if k & (k + 1) == 0 and x.op == 'lshr' and x.a[1].op == 'c' and x.a[0].op in ('cat', 'lin'):
                m = k.bit_length()
                if x.a[1].a[0] + m <= x.w:
                    r = ext(x.a[0], x.a[1].a[0], m)
                    if r.op == 'c':
                        return C(r.a[0], w)
            if k & (k - 1) == 0 and x.op in ('sel', 'sym', 'f', 'ext', 'cat'):
                j = k.bit_length() - 1
                if w % 8 == 0:
                    b = ext(x, j // 8 * 8, 8)
                    if b.op in ('sel', 'sym', 'f', 'ext'):
                        if j % 8 == 7:
                            at = ult(x, C(k, w)) if j == w - 1 and w <= 64 else ult(b, C(128, 8))
                        else:
                            at = atom('eq', mk('and', 8, b, C(1 << (j % 8), 8)), C(0, 8))
                        return ITE(at, C(0, w), C(k, w))
        elif name == 'or':
            if k == 0:
                return x
            if k == full:
                return y
        else:
            if k == 0:
                return x
    if x is y:
        return C(0, w) if name == 'xor' else x
    # split on byte structure
    if w % 8 == 0:
        cuts = None
        if x.op == 'cat' or y.op == 'cat':
            if y.op == 'c' or x.op == 'cat' and y.op == 'cat':
                bx, by = _bounds(x), _bounds(y)
                cuts = sorted(set(bx if x.op == 'cat' else []) | set(by if y.op == 'cat' else []))
                # only split opaque parts at common boundaries or when other side is const there
                ok = True
                if x.op == 'cat' and y.op == 'cat':
                    ok = _splittable(x, cuts) and _splittable(y, cuts)
                if not ok:
                    cuts = None
        elif name == 'and' and y.op == 'c' and w > 8:
            k = y.a[0]
            bs = [(k >> (8 * i)) & 255 for i in range(w // 8)]
            # mask trimming: zero high bytes / full-or-zero bytes
            if all(b in (0, 255) for b in bs):
                cuts = []
                for i in range(1, len(bs) + 1):
                    if i == len(bs) or bs[i] != bs[i - 1]:
                        cuts.append(8 * i)
                if len(cuts) == 1:
                    cuts = None
            elif bs[-1] == 0:
                top_ = max(i for i, b in enumerate(bs) if b) + 1
                cuts = [8 * top_, w]
        if cuts and len(cuts) > 1:
            parts = []
            p = 0
            for c in cuts:
                parts.append(_bitop(name, ext(x, p, c - p), ext(y, p, c - p), f))
                p = c
            return cat(parts)
    # AC flatten
    items = []
    const = None
    for z in (x, y):
        zs = z.a if z.op == name else (z,)
        for q in zs:
            if q.op == 'c':
                const = q.a[0] if const is None else f(const, q.a[0])
            else:
                items.append(q)
    if name == 'xor':
        cnt = {}
        for q in items:
            cnt[q] = cnt.get(q, 0) ^ 1
        items = [q for q, n in cnt.items() if n]
        if const == 0:
            const = None
    else:
        items = list(dict.fromkeys(items))
        if name == 'and' and const is not None:
            if const == 0:
                return C(0, w)
            if const == (1 << w) - 1:
                const = None
        if name == 'or' and const is not None:
            if const == 0:
                const = None
            elif const == (1 << w) - 1:
                return C(const, w)
    if not items:
        return C(const or 0, w)
    if len(items) == 1 and const is None:
        return items[0]
    if name in ('or', 'xor') and w % 8 == 0:
        r = _disjoint(w, const or 0, [(_unshift(q)) for q in items]) if len({_unshift(q)[0] for q in items}) == len(items) else None
        if r is not None:
            return r
    items.sort(key=lambda q: q.id)
    if const is not None:
        items.append(C(const, w))
    return mk(name, w, *items)


def _splittable(x, cuts):
    p = 0
    for part in x.a:
        inner = [c for c in cuts if p < c < p + part.w]
        if inner and part.op not in ('c', 'sel', 'ext'):
            return False
        p += part.w
    return True


def _unshift(q):
    """q = x << s   ->  (x, 1<<s)"""
    if q.op == 'lin' and q.a[0] == 0 and len(q.a[1]) == 1:
        x, k = q.a[1][0]
        if not (k & (k - 1)):
            return x, k
    if q.op == 'cat' and q.a[0].op == 'c' and q.a[0].a[0] == 0:
        s = q.a[0].w
        return zext(cat(list(q.a[1:])), q.w), 1 << s
    return q, 1


def band(x, y):
    return _bitop('and', x, y, lambda a, b: a & b)


def bor(x, y):
    return _bitop('or', x, y, lambda a, b: a | b)


def bxor(x, y):
    return _bitop('xor', x, y, lambda a, b: a ^ b)


def bnot(x):
    return bxor(x, C(-1, x.w))


# ------------------------------------------------------------------ width changes
def cat(parts):
    """little-endian concatenation"""
    flat = []
    for p in parts:
        if p.w == 0:
            continue
        if p.op == 'cat':
            flat.extend(p.a)
        else:
            flat.append(p)
    if any(p.op == 'ite' for p in flat):
        n = 1
        for p in flat:
            n *= nleaves(p)
        # lift when cheap: share one condition set
        un = frozenset().union(*[sup(p) for p in flat])
        if n <= LIFT_LIMIT or len(un) <= 4:
            at = top(*flat)
            return ITE(node(at, TRUE, FALSE), cat([cof(p, at, 1) for p in flat]), cat([cof(p, at, 0) for p in flat]))
        if len(un) <= 24 and len(un) <= 2 + max(len(sup(p)) for p in flat):
            r = _catlift(tuple(flat))
            if r is not None:
                return r
    out = []
    for p in flat:
        if out:
            q = out[-1]
            m = _merge(q, p)
            if m is not None:
                out[-1] = m
                # a full re-assembly may collapse further
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    w = sum(p.w for p in out)
    return mk('cat', w, *out)


_cl = {}


class _Big(Exception):
    pass


def _catlift(flat, limit=300):
    """concatenation of values gated by the same conditions, lifted above the gates"""
    k = flat if limit == 300 else (flat, limit)
    if k in _cl:
        return _cl[k]
    memo = {}

    def rec(ps):
        r = memo.get(ps)
        if r is None:
            if len(memo) > limit:
                raise _Big()
            at = top(*ps)
            if at is None:
                r = cat(list(ps))
            else:
                h = rec(tuple(cof(p, at, 1) for p in ps))
                l = rec(tuple(cof(p, at, 0) for p in ps))
                r = ITE(node(at, TRUE, FALSE), h, l)
            memo[ps] = r
        return r
    try:
        r = rec(flat)
    except _Big:
        r = None
    _cl[k] = r
    return r


def _merge(q, p):
    if q.op == 'c' and p.op == 'c':
        return C(q.a[0] | (p.a[0] << q.w), q.w + p.w)
    if q.op == 'sel' and p.op == 'sel' and q.a[0] is p.a[0]:
        if sub(p.a[1], q.a[1]) is C(q.w // 8, 64):
            return mk('sel', q.w + p.w, q.a[0], q.a[1])
    if q.op == 'ext' and p.op == 'ext' and q.a[0] is p.a[0] and q.a[1] + q.w == p.a[1]:
        return ext(q.a[0], q.a[1], q.w + p.w)
    if q.op == 'xor' and p.op == 'xor' and len(q.a) == 2 and len(p.a) == 2 and q.a[1].op == 'c' and p.a[1].op == 'c':
        z = _merge(q.a[0], p.a[0])
        if z is not None and z.op in ('ext', 'sel', 'f', 'sym'):
            return bxor(z, _merge(q.a[1], p.a[1]))
    # low part of x stored as a value itself: x(8) then ext(y..)
    if p.op == 'ext' and q.op != 'ext' and p.a[1] == q.w and ext(p.a[0], 0, q.w) is q:
        return ext(p.a[0], 0, q.w + p.w)
    return None


def ext(x, off, w):
    """bits [off, off+w)"""
    if off == 0 and w == x.w:
        return x
    if w == 0:
        return mk('nil', 0)
    op = x.op
    if op == 'c':
        return C(x.a[0] >> off, w)
    if op == 'ite':
        return lift1(('ext', off, w), lambda z: ext(z, off, w), x)
    if op == 'cat':
        parts = []
        p = 0
        for q in x.a:
            lo = max(p, off)
            hi = min(p + q.w, off + w)
            if lo < hi:
                parts.append(ext(q, lo - p, hi - lo))
            p += q.w
        return cat(parts)
    if op == 'sel' and off % 8 == 0 and w % 8 == 0:
        return mk('sel', w, x.a[0], add(x.a[1], C(off // 8, 64)))
    if op == 'ext':
        return ext(x.a[0], x.a[1] + off, w)
    if op == 'hctx':
        return mk('ext', w, x, off)
    if op in ('and', 'or', 'xor') and w >= 8:
        f = {'and': band, 'or': bor, 'xor': bxor}[op]
        r = None
        for z in x.a:
            e = ext(z, off, w)
            r = e if r is None else f(r, e)
        return r
    if off == 0:
        if op == 'lin':
            r = C(x.a[0], w)
            for z, k in x.a[1]:
                r = add(r, scale(ext(z, 0, w), k))
            return r
        if op == 'mul':
            r = ext(x.a[0], 0, w)
            for z in x.a[1:]:
                r = mul(r, ext(z, 0, w))
            return r
        if op == 'sx':
            y = x.a[0]
            return ext(y, 0, w) if w <= y.w else sext(y, w)
    elif op in ('lin', 'mul') and off + w < x.w:
        return ext(ext(x, 0, off + w), off, w)
    hi = rng(x)[1]
    if hi >> off == 0:
        return C(0, w)
    if op == 'lshr' and x.a[1].op == 'c' and off + w + x.a[1].a[0] <= x.w and (off + x.a[1].a[0]) % 8 == 0:
        return ext(x.a[0], off + x.a[1].a[0], w)
    if op == 'lshr' and x.a[1].op == 'c' and off and off + x.a[1].a[0] < x.w:
        return ext(lshr(x.a[0], C(off + x.a[1].a[0], x.w)), 0, w)
    if off == 0:
        # drop known-zero high bytes lazily
        pass
    return mk('ext', w, x, off)


def trunc(x, w):
    if w == 1:
        return bit0(x)
    return ext(x, 0, w)


def bit0(x):
    if x.op == 'c':
        return C(x.a[0] & 1, 1)
    if x.op == 'ite':
        return lift1('bit0', bit0, x)
    return NOT(eq(band(x, C(1, x.w)), C(0, x.w)))


def zext(x, w):
    if w == x.w:
        return x
    if x.w == 1:
        return ITE(x, C(1, w), C(0, w))
    if x.op == 'c':
        return C(x.a[0], w)
    if x.op == 'ite' and _small(x):
        return lift1(('zext', w), lambda z: zext(z, w), x)
    if x.op == 'lin':
        # distribute when it cannot wrap
        if _nowrap(x):
            r = C(x.a[0], w)
            for z, k in x.a[1]:
                r = add(r, scale(zext(z, w), k))
            return r
    if x.op == 'ext' and x.a[1] == 0 and rng(x.a[0])[1] < (1 << x.w):
        y = x.a[0]
        return y if y.w == w else (ext(y, 0, w) if y.w > w else zext(y, w))
    return cat([x, C(0, w - x.w)])


def _nowrap(x):
    s = x.a[0]
    for z, k in x.a[1]:
        s += k * rng(z)[1]
    return s < (1 << x.w)


def sext(x, w):
    if w == x.w:
        return x
    if x.w == 1:
        return ITE(x, C(-1, w), C(0, w))
    if x.op == 'c':
        return C(sval(x), w)
    if x.op == 'ite' and _small(x):
        return lift1(('sext', w), lambda z: sext(z, w), x)
    if _nonneg(x):
        return zext(x, w)
    if x.op == 'sx':
        return sext(x.a[0], w)
    if x.op == 'lin':
        # distribute when no signed wrap is possible
        lo = hi = x.a[0] - (1 << x.w) if x.a[0] >> (x.w - 1) else x.a[0]
        for z, k in x.a[1]:
            kk = k - (1 << x.w) if k >> (x.w - 1) else k
            r = rng(z)
            if r[1] >= 1 << (x.w - 1):
                lo = -(1 << 200)
                break
            lo += min(kk * r[0], kk * r[1])
            hi += max(kk * r[0], kk * r[1])
        if lo >= -(1 << (x.w - 1)) and hi < 1 << (x.w - 1):
            c = x.a[0] - (1 << x.w) if x.a[0] >> (x.w - 1) else x.a[0]
            r = C(c, w)
            for z, k in x.a[1]:
                kk = k - (1 << x.w) if k >> (x.w - 1) else k
                r = add(r, scale(zext(z, w), kk))
            return r
    return mk('sx', w, x)


# ------------------------------------------------------------------ comparisons
BYTEY = ('sel', 'ext', 'cat', 'c', 'f')


def eq(x, y):
    if x is y:
        return TRUE
    if x.op == 'ite' or y.op == 'ite':
        return lift2('eq', eq, x, y)
    if x.op == 'c' and y.op == 'c':
        return FALSE
    if x.w == 0:
        return atom('aeq', *(sorted((x, y), key=lambda z: z.id)))
    if x.op == 'c':
        x, y = y, x
    if x.op == 'ptr' or y.op == 'ptr':
        if x.op == 'ptr' and x.a[0][0] == 'pt' and x.a[0][1].op == 'c' or y.op == 'ptr' and y.a[0][0] == 'pt' and y.a[0][1].op == 'c':
            flat = lambda z: add(z.a[0][1], z.a[1]) if z.op == 'ptr' and z.a[0][0] == 'pt' and z.a[0][1].op == 'c' else z
            return eq(flat(x), flat(y))
        if x.op != 'ptr':
            x, y = y, x
        if y.op == 'c':
            if y.a[0] == 0:
                return FALSE
        elif y.op == 'ptr':
            if x.a[0] == y.a[0]:
                return eq(x.a[1], y.a[1])
            return FALSE
        elif x.a[0][0] == 'pt' and x.a[0][1] is y:
            return eq(x.a[1], C(0, 64))
        elif x.a[0][0] in ('st', 'heap', 'g'):
            return FALSE
        return atom('eq', *sorted((x, y), key=lambda z: z.id))
    r = rng(x), rng(y)
    if r[0][1] < r[1][0] or r[1][1] < r[0][0]:
        return FALSE
    if x.w == 1:
        return ITE(x, y, NOT(y))
    if y.op == 'c':
        k = y.a[0]
        if k == 0 and x.op == 'f' and x.a[0] == 'gen':
            return FALSE
        if x.op == 'cat':
            res = TRUE
            p = 0
            for q in x.a:
                res = AND(res, eq(q, C(k >> p, q.w)))
                if res is FALSE:
                    return res
                p += q.w
            return res
        if x.op == 'lin':
            c, ps = x.a
            if len(ps) == 1:
                z, kk = ps[0]
                if kk % 2:
                    inv = pow(kk, -1, 1 << x.w)
                    return eq(z, C((k - c) * inv, x.w))
            elif len(ps) == 2 and ps[0][1] == 1 and ps[1][1] == (1 << x.w) - 1 and c == k:
                return eq(ps[0][0], ps[1][0])
            elif len(ps) == 2 and ps[1][1] == 1 and ps[0][1] == (1 << x.w) - 1 and c == k:
                return eq(ps[0][0], ps[1][0])
        if x.op == 'xor':
            if k == 0 and len(x.a) == 2:
                return eq(x.a[0], x.a[1])
            if x.a[-1].op == 'c':
                rest = mkac('xor', x.w, x.a[:-1])
                return eq(rest, C(k ^ x.a[-1].a[0], x.w))
        if x.op == 'or' and k == 0:
            res = TRUE
            for q in x.a:
                res = AND(res, eq(q, y))
            return res
        if x.op == 'sx':
            z = x.a[0]
            if C(sval(C(k, z.w)), x.w) is C(k, x.w):
                return eq(z, C(k, z.w))
            return FALSE
        if x.op == 'and' and len(x.a) == 2 and x.a[1].op == 'c':
            # mask of leading ones: an interval test
            m = x.a[1].a[0]
            low = m & -m
            if m + low == 1 << x.w and (k == 0 or k == m):
                r = ult(x.a[0], C(low if k == 0 else m, x.w))
                return r if k == 0 else NOT(r)
        if x.op == 'lshr' and x.a[1].op == 'c' and k == 0:
            return ult(x.a[0], C(1 << x.a[1].a[0], x.w))
        if x.op == 'ext' and k == 0 and x.a[1] % 8 and x.a[1] + x.w == x.a[0].w and x.a[0].w <= 64:
            return ult(x.a[0], C(1 << x.a[1], x.a[0].w))
        return atom('eq', x, y)
    if x.w > 8 and x.w % 8 == 0 and (x.op == 'cat' or y.op == 'cat' or (x.op in ('sel', 'ext') and y.op in ('sel', 'ext'))):
        if x.op in ('cat', 'sel', 'ext', 'f') and y.op in ('cat', 'sel', 'ext', 'f'):
            if x.w > 64 or x.op == 'cat' or y.op == 'cat':
                if any(z.op == 'cat' and len(z.a) > 8 and any(q.op == 'ite' for q in z.a) for z in (x, y)):
                    for z, o in ((x, y), (y, x)):
                        if z.op == 'cat' and any(q.op == 'ite' for q in z.a):
                            r = _catlift(z.a, 3000)
                            if r is not None:
                                return eq(r, o)
                cuts = {0, x.w}
                for z in (x, y):
                    if z.op == 'cat':
                        p = 0
                        for q in z.a:
                            p += q.w
                            cuts.add(p)
                cuts = sorted(cuts)
                if len(cuts) > 2 or x.w <= 64:
                    res = TRUE
                    for lo, hi in zip(cuts, cuts[1:]):
                        if hi - lo > 64 or hi - lo <= 8 or hi % 8 or lo % 8:
                            res = AND(res, eq(ext(x, lo, hi - lo), ext(y, lo, hi - lo)))
                        else:
                            for i in range(lo, hi, 8):
                                res = AND(res, eq(ext(x, i, 8), ext(y, i, 8)))
                                if res is FALSE:
                                    return res
                        if res is FALSE:
                            return res
                    return res
    if x.op == 'lin' or y.op == 'lin':
        d = sub(x, y)
        if d.op != 'lin':
            return eq(d, C(0, d.w))
        c, ps = d.a
        # sign normal form: first coefficient 'positive'
        if ps[0][1] >> (d.w - 1):
            d = neg(d)
            if d.op != 'lin':
                return eq(d, C(0, d.w))
            c, ps = d.a
        if len(ps) == 1:
            z, kk = ps[0]
            if kk % 2:
                return eq(z, C(-c * pow(kk, -1, 1 << d.w), d.w))
        if len(ps) == 2 and c == 0 and ps[0][1] == 1 and ps[1][1] == (1 << d.w) - 1:
            return eq(ps[0][0], ps[1][0])
        return atom('eq', d, C(0, d.w))
    if x.op == 'xor' or y.op == 'xor':
        ix, iy = [set(z.a) if z.op == 'xor' else {z} for z in (x, y)]
        if ix & iy:
            return eq(bxor(x, y), C(0, x.w))
    return atom('eq', *sorted((x, y), key=lambda z: z.id))


def mkac(op, w, items):
    items = list(items)
    if len(items) == 1:
        return items[0]
    return mk(op, w, *items)


def ult(x, y):
    if x is y:
        return FALSE
    if x.op == 'ite' or y.op == 'ite':
        return lift2('ult', ult, x, y)
    rx, ry = rng(x), rng(y)
    if rx[1] < ry[0]:
        return TRUE
    if rx[0] >= ry[1]:
        return FALSE
    if x.w == 1:
        return AND(NOT(x), y)
    # strip common zero-extension
    if x.op == 'cat' and x.a[-1].op == 'c' and x.a[-1].a[0] == 0:
        if y.op == 'cat' and y.a[-1].op == 'c' and y.a[-1].a[0] == 0 and True:
            n = min(x.a[-1].w, y.a[-1].w)
            return ult(ext(x, 0, x.w - n), ext(y, 0, x.w - n))
        if y.op == 'c':
            n = x.a[-1].w
            return ult(ext(x, 0, x.w - n), C(y.a[0], x.w - n))
    if y.op == 'cat' and y.a[-1].op == 'c' and y.a[-1].a[0] == 0 and x.op == 'c':
        n = y.a[-1].w
        return ult(C(x.a[0], x.w - n), ext(y, 0, x.w - n))
    if x.op == 'cat' and y.op == 'cat' and x.a[-1] is y.a[-1]:
        n = x.a[-1].w
        return ult(ext(x, 0, x.w - n), ext(y, 0, x.w - n))
    if x.op == 'c':
        # k < y  <=>  !(y < k+1)
        return NOT(ult(y, C(x.a[0] + 1, x.w)))
    if y.op == 'c' and y.a[0] == 1:
        return eq(x, C(0, x.w))
    if x.op in ('lin', 'cat', 'sel', 'sym', 'f', 'ext') and (x.op == 'lin' or y.op == 'lin') and x.w >= 32:
        r = _cancel(x, y)
        if r is not None:
            return ult(*r)
    if x.op == 'ptr' and y.op == 'ptr' and x.a[0] == y.a[0]:
        return ult(x.a[1], y.a[1])
    if y.op == 'c' and x.op == 'lin' and x.w <= 32 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 and not _nowrap(x):
        # (z + c) mod 2^w < k : z in a (possibly wrapping) interval
        z = x.a[1][0][0]
        lo = (-x.a[0]) % (1 << x.w)
        hi = lo + y.a[0]
        if hi <= 1 << x.w:
            r = NOT(ult(z, C(lo, x.w)))
            return r if hi == 1 << x.w else AND(r, ult(z, C(hi, x.w)))
        return OR(ult(z, C(hi - (1 << x.w), x.w)), NOT(ult(z, C(lo, x.w))))
    if y.op == 'c':
        k = y.a[0]
        b = k.bit_length() - 1
        if k == 1 << b and b % 8 == 0 and x.op in ('sel', 'ext', 'sym', 'f', 'cat'):
            return eq(ext(x, b, x.w - b), C(0, x.w - b))
    # canonical: ult(x,y) vs not ult(y,x)... keep both
    return atom('ult', x, y)


def _cancel(x, y):
    """cancel common non-negative addends; sound when neither side wraps
    (assumption A-NOWRAP: address-space sized sums do not wrap)"""
    cx, px = _linparts(x)
    cy, py = _linparts(y)
    w = x.w
    half = 1 << (w - 1)
    dx, dy = dict(px), dict(py)
    if any(k >= half for k in dx.values()) or any(k >= half for k in dy.values()) or cx >= half or cy >= half:
        return None
    com = {}
    for t, k in dx.items():
        if t in dy:
            com[t] = min(k, dy[t])
    c = min(cx, cy)
    if not com and not c:
        return None
    if not com and c and (x.op == 'c' or y.op == 'c'):
        # a + c < k form: only when a + c cannot wrap by range
        if x.op == 'lin' and not _nowrap(x) and y.op == 'c':
            if w < 64:
                return None
    for t, k in com.items():
        dx[t] -= k
        dy[t] -= k
    a, b = mklin(w, cx - c, dx), mklin(w, cy - c, dy)
    if a is x and b is y:
        return None
    return a, b


def slt(x, y):
    if x is y:
        return FALSE
    if x.op == 'ite' or y.op == 'ite':
        return lift2('slt', slt, x, y)
    if _nonneg(x) and _nonneg(y):
        return ult(x, y)
    if x.op == 'c' and y.op == 'c':
        return C(int(sval(x) < sval(y)), 1)
    if y.op == 'c' and y.a[0] == 0:
        # sign bit
        if x.op == 'sx':
            return slt(x.a[0], C(0, x.a[0].w))
        if x.op == 'lin' and x.w <= 64:
            # non-negative minus smaller etc: general atom
            pass
        return NOT(ult(x, C(1 << (x.w - 1), x.w)))
    if x.op == 'sx' and y.op == 'sx' and x.a[0].w == y.a[0].w:
        return slt(x.a[0], y.a[0])
    if x.op == 'sx' and y.op == 'c':
        z = x.a[0]
        k = sval(y)
        if -(1 << (z.w - 1)) <= k < (1 << (z.w - 1)):
            return slt(z, C(k, z.w))
        return C(int(k > 0), 1)
    if y.op == 'sx' and x.op == 'c':
        z = y.a[0]
        k = sval(x)
        if -(1 << (z.w - 1)) <= k < (1 << (z.w - 1)):
            return slt(C(k, z.w), z)
        return C(int(k < 0), 1)
    if x.op == 'c':
        return NOT(slt(y, C(x.a[0] + 1, x.w)))
    if y.op == 'c' and sval(y) > 0:
        # x < k signed  <=>  sign(x) or x <u k
        return OR(slt(x, C(0, x.w)), ult(x, y))
    # signed compare with possibly-negative linear sides: cancel (no signed overflow in C)
    cx, px = _linparts(x)
    cy, py = _linparts(y)
    d = sub(x, y)
    if d.op == 'c':
        return C(int(sval(d) < 0), 1)
    # move negative coefficients to the other side
    lx, ly = {}, {}
    half = 1 << (x.w - 1)
    M = 1 << x.w
    c, ps = _linparts(d)
    for t, k in ps:
        if k >= half:
            ly[t] = M - k
        else:
            lx[t] = k
    kx, ky = (c, 0) if c < half else (0, M - c)
    a, b = mklin(x.w, kx, lx), mklin(x.w, ky, ly)
    if all(_nonneg(t) for t in lx) and all(_nonneg(t) for t in ly) and (a is not x or b is not y):
        if _nonneg(a) and _nonneg(b):
            return ult(a, b)
    if (a is not x or b is not y):
        if a.op == 'c' or b.op == 'c':
            return slt(a, b)
    return atom('slt', x, y)


# ------------------------------------------------------------------ pointers
def mkptr(obj, off):
    if off.op == 'ite':
        return lift1(('mkptr', obj), lambda o: mkptr(obj, o), off)
    if obj[0] == 'pt' and off is C(0, 64):
        return obj[1]
    return mk('ptr', 64, obj, off)


def NULL():
    return C(0, 64)


# ------------------------------------------------------------------ arrays
AZERO = mk('azero', 0)


def sel(A, off, n, pc=TRUE):
    """read n bytes (little endian value) at byte offset off"""
    if A.op == 'ite' or off.op == 'ite':
        return lift2(('sel', n, pc), lambda a, o: sel(a, o, n, pc), A, off)
    op = A.op
    w = 8 * n
    if op == 'azero':
        return C(0, w)
    if op == 'abytes':
        if off.op == 'c':
            o = off.a[0]
            b = A.a[0]
            if o + n <= len(b):
                return C(int.from_bytes(b[o:o + n], 'little'), w)
    elif op == 'acells':
        base, cells = A.a
        if off.op == 'c':
            o = off.a[0]
            m = _celldict(A)
            if all((o + i) in m for i in range(n)):
                return assemble([m[o + i] for i in range(n)])
            if not any((o + i) in m for i in range(n)):
                return sel(base, off, n, pc)
            return cat([assemble([m[o + i]]) if (o + i) in m else sel(base, C(o + i, 64), 1, pc) for i in range(n)])
        r = rng(off)
        m = _celldict(A)
        if r[1] - r[0] < 4096 and not any((r[0] + i) in m for i in range(r[1] - r[0] + n)):
            return sel(base, off, n, pc)
    elif op == 'astore':
        base, o2, v = A.a
        d = sub(off, o2)
        m = v.w // 8
        if d.op == 'c':
            k = sval(d)
            if 0 <= k and k + n <= m:
                return ext(v, 8 * k, w)
            if k >= m or k + n <= 0:
                return sel(base, off, n, pc)
            return cat([sel(A, add(off, C(i, 64)), 1, pc) for i in range(n)])
        r = rng(d)
        if n == 1 and m == 1:
            c = eq(off, o2)
            cc = given(c, pc)
            if cc is FALSE:
                return sel(base, off, n, pc)
            if cc is TRUE:
                return v
    elif op == 'aset':
        base, o2, ln, b = A.a
        s = _inside(off, n, o2, ln, pc)
        if s is True:
            return cat([b] * n)
        if s is False:
            return sel(base, off, n, pc)
    elif op == 'acopy':
        base, o2, ln, B, bo = A.a
        s = _inside(off, n, o2, ln, pc)
        if s is True:
            return sel(B, add(bo, sub(off, o2)), n, pc)
        if s is False:
            return sel(base, off, n, pc)
    return mk('sel', w, A, off)


def _inside(off, n, o2, ln, pc):
    d = sub(off, o2)
    if d.op == 'c':
        k = sval(d)
        if k + n <= 0:
            return False
        if k >= 0:
            c = ult(C(k + n - 1, 64), ln)
            c = given(c, pc)
            if c is TRUE:
                return True
            if ult(C(k, 64), ln) is FALSE or given(ult(C(k, 64), ln), pc) is FALSE:
                return False
        return None
    c = given(ult(add(d, C(n - 1, 64)), ln), pc)
    if c is TRUE and given(ult(off, o2), pc) is FALSE:
        return True
    if given(ult(add(off, C(n - 1, 64)), o2), pc) is TRUE:
        return False
    e = add(o2, ln)
    dd = sub(off, e)
    if dd.op == 'c' and sval(dd) >= 0:
        return False
    if given(ult(off, e), pc) is FALSE:
        return False
    return None


_cd = {}


def _celldict(A):
    d = _cd.get(A)
    if d is None:
        d = {o: (t, k) for o, t, k in A.a[1]}
        _cd[A] = d
    return d


def assemble(bs):
    """list of (term, byteindex) -> term"""
    t0, k0 = bs[0]
    n = len(bs)
    if k0 == 0 and t0.w == 8 * n:
        ok = True
        for i in range(1, n):
            t, k = bs[i]
            if t is not t0 or k != i:
                ok = False
                break
        if ok:
            return t0
    parts = []
    i = 0
    while i < n:
        t, k = bs[i]
        j = i + 1
        while j < n and bs[j][0] is t and bs[j][1] == k + (j - i):
            j += 1
        parts.append(ext(t, 8 * k, 8 * (j - i)))
        i = j
    return cat(parts)


# ------------------------------------------------------------------ substitution / traversal
def contains(t, x, memo=None):
    if memo is None:
        memo = {}
    if t is x:
        return True
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = False
    r = any(contains(c, x, memo) for c in children(t))
    memo[t] = r
    return r


def children(t):
    out = []

    def rec(a):
        for z in a:
            if isinstance(z, T):
                out.append(z)
            elif isinstance(z, tuple):
                rec(z)
    rec(t.a)
    return out


REB = {}


def subst(t, m, memo=None):
    """rebuild t with the mapping applied (canonicalising)"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not children(t):
        r = t
    else:
        op = t.op
        S = lambda x: subst(x, m, memo)
        if op == 'ite':
            r = ITE(S_atom(t.a[0], m, memo), S(t.a[1]), S(t.a[2]))
        elif op == 'lin':
            r = C(t.a[0], t.w)
            for z, k in t.a[1]:
                r = add(r, scale(S(z), k))
        elif op in ('and', 'or', 'xor'):
            f = {'and': band, 'or': bor, 'xor': bxor}[op]
            r = S(t.a[0])
            for z in t.a[1:]:
                r = f(r, S(z))
        elif op == 'mul':
            r = S(t.a[0])
            for z in t.a[1:]:
                r = mul(r, S(z))
        elif op in BIN:
            r = BIN[op](S(t.a[0]), S(t.a[1]))
        elif op == 'cat':
            r = cat([S(z) for z in t.a])
        elif op == 'ext':
            r = ext(S(t.a[0]), t.a[1], t.w)
        elif op == 'sx':
            r = sext(S(t.a[0]), t.w)
        elif op == 'sel':
            r = sel(S(t.a[0]), S(t.a[1]), t.w // 8)
        elif op == 'ptr':
            o = t.a[0]
            if o[0] == 'pt':
                p = S(o[1])
                r = add(aspt(p), S(t.a[1]))
            else:
                r = mkptr(o, S(t.a[1]))
        elif op in REB:
            r = REB[op](t, m, S)
        else:
            r = mk(op, t.w, *[_sub_any(z, S) for z in t.a])
    memo[t] = r
    return r


def _sub_any(z, S):
    if isinstance(z, T):
        return S(z)
    if isinstance(z, tuple):
        return tuple(_sub_any(q, S) for q in z)
    return z


def S_atom(at, m, memo):
    S = lambda x: subst(x, m, memo)
    if at in m:
        return m[at]
    if at.op == 'eq':
        return eq(S(at.a[0]), S(at.a[1]))
    if at.op == 'ult':
        return ult(S(at.a[0]), S(at.a[1]))
    if at.op == 'slt':
        return slt(S(at.a[0]), S(at.a[1]))
    if at.op == 'aeq':
        return eq(S(at.a[0]), S(at.a[1]))
    if at in m:
        return m[at]
    return atom(at.op, *[_sub_any(z, S) for z in at.a])


BIN = {'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}


def aspt(p):
    """pointer term in ptr form"""
    if p.op == 'ite':
        return lift1('aspt', aspt, p)
    if p.op == 'ptr':
        return p
    return mk('ptr', 64, ('pt', p), C(0, 64))


# ------------------------------------------------------------------ uninterpreted
def f(name, w, *args):
    return mk('f', w, name, *args)


# ------------------------------------------------------------------ display
def show(t, d=6):
    op = t.op
    if d < 0:
        return '…'
    if op == 'c':
        if t.w == 1:
            return 'T' if t.a[0] else 'F'
        v = t.a[0]
        return str(v) if v < 256 else (str(sval(t)) if t.w <= 64 and -256 < sval(t) < 0 else hex(v))
    if op == 'abytes':
        return 'table' + t.a[0].hex()[:12] + '.%d' % (hash(t.a[0]) % 997)
    if op == 'sym':
        return str(t.a[0]) if not isinstance(t.a[0], tuple) else '.'.join(map(str, t.a[0]))
    if op == 'ite':
        a = show(t.a[0], d - 1)
        if t.a[1] is TRUE and t.a[2] is FALSE:
            return f'[{a}]'
        if t.a[1] is FALSE and t.a[2] is TRUE:
            return f'![{a}]'
        return f'({a} ? {show(t.a[1], d-1)} : {show(t.a[2], d-1)})'
    if op == 'eq':
        return f'{show(t.a[0], d-1)}=={show(t.a[1], d-1)}'
    if op in ('ult', 'slt'):
        return f'{show(t.a[0], d-1)}{"<" if op=="ult" else "<s"}{show(t.a[1], d-1)}'
    if op == 'lin':
        s = []
        for z, k in t.a[1]:
            kk = k - (1 << t.w) if k >> (t.w - 1) else k
            s.append((f'{kk}*' if kk != 1 else '') + show(z, d - 1))
        c = t.a[0] - (1 << t.w) if t.a[0] >> (t.w - 1) else t.a[0]
        if c:
            s.append(str(c))
        return '(' + '+'.join(s) + ')'
    if op == 'ptr':
        return f'&{_objname(t.a[0], d-1)}+{show(t.a[1], d-1)}'
    if op == 'sel':
        return f'{show(t.a[0], d-1)}[{show(t.a[1], d-1)}:{t.w//8}]'
    if op == 'asym':
        return _objname(t.a[0], d - 1) if isinstance(t.a[0], tuple) else str(t.a[0])
    if op == 'ext':
        return f'{show(t.a[0], d-1)}.{t.a[1]//8}:{t.w//8}'
    if op == 'f':
        return f'{t.a[0]}({", ".join(_sh(z, d-1) for z in t.a[1:])})'
    return f'{op}({", ".join(_sh(z, d-1) for z in t.a)})'


def _sh(z, d):
    if isinstance(z, T):
        return show(z, d)
    if isinstance(z, tuple):
        return '<' + ','.join(_sh(q, d) for q in z) + '>'
    return str(z)


def _objname(o, d):
    if o[0] == 'pt':
        return '*' + show(o[1], d)
    return ':'.join(str(x) for x in o)


def stats():
    return len(_tab)
