"""Byte-stream terms (hash preimages, serializer output) and binder terms for summarised loops."""
from terms import *
import terms as _t

EMPTY = mk('str', 0)


def _height(t, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = 0
    r = 0
    if t.op in ('rep', 'trip', 'fold', 'afill'):
        r = t.a[0]
    for c in children(t):
        h = _height(c, memo)
        if h > r:
            r = h
    memo[t] = r
    return r


def bvar(h, w=64):
    return _cnt(sym(('b', h), w))


def _cnt(v):
    # A-NOWRAP: iteration counters stay below 2^31
    SYMRNG[v] = (0, (1 << 31) - 1)
    return v


def nvar(d):
    return _cnt(sym(('n', d), 64))


def append(s, p):
    """append piece (byte term w>0, or seg/rep/str w=0)"""
    if s.op == 'ite' or p.op == 'ite':
        return lift2('append', append, s, p)
    return _app(s, p)


def _app(s, p):
    if p.op == 'str':
        for q in p.a:
            s = append(s, q)
        return s
    if p.op == 'nil':
        return s
    ps = list(s.a)
    if ps:
        m = _join(ps[-1], p)
        if m is not None:
            ps[-1:] = m
            return mk('str', 0, *ps)
    ps.append(p)
    return mk('str', 0, *ps)


def _join(q, p):
    if q.w > 0 and p.w > 0:
        if q.op == 'hctx' or p.op == 'hctx':
            return None
        return [cat([q, p])]
    if q.op == 'seg' and p.op == 'seg' and q.a[0] is p.a[0]:
        if sub(p.a[1], q.a[1]) is q.a[2]:
            return [mk('seg', 0, q.a[0], q.a[1], add(q.a[2], p.a[2]))]
    return None


def seg(A, off, n):
    """n bytes of array A from off"""
    if A.op == 'ite' or off.op == 'ite' or n.op == 'ite':
        at = top(A, off, n)
        return ITE(node(at, TRUE, FALSE), seg(cof(A, at, 1), cof(off, at, 1), cof(n, at, 1)),
                   seg(cof(A, at, 0), cof(off, at, 0), cof(n, at, 0)))
    if n.op == 'c':
        k = n.a[0]
        if k == 0:
            return EMPTY
        if k <= 8192:
            return append(EMPTY, sel(A, off, k))
    if A.op == 'acopy':
        base, o2, ln, B, bo = A.a
        if off is o2 and n is ln:
            return seg(B, bo, n)
        # region strictly within
        d = sub(off, o2)
        if d is C(0, 64) and (ult(ln, n) is FALSE):
            return seg(B, bo, n)
        if n is ln and off is o2:
            return seg(B, bo, n)
        if sub(off, add(o2, ln)).op == 'c' and sval(sub(off, add(o2, ln))) >= 0:
            return seg(base, off, n)
    if A.op == 'acells':
        # cells known at constant offsets, off symbolic/const
        pass
    return mk('seg', 0, A, off, n)


def mkrep(var, N, X):
    """concatenation over var=0..N-1 of X(var)"""
    if N.op == 'ite':
        return lift1(('rep', var, X), lambda z: mkrep(var, z, X), N)
    if X is EMPTY:
        return EMPTY
    if N.op == 'c':
        if N.a[0] == 0:
            return EMPTY
        if N.a[0] <= 64:
            s = EMPTY
            for i in range(N.a[0]):
                s = append(s, subst(X, {var: C(i, 64)}))
            return s
    # single consecutive byte reads -> segment
    if X.op == 'str' and len(X.a) == 1 and X.a[0].op == 'sel':
        y = X.a[0]
        k = y.w // 8
        if not contains(y.a[0], var):
            d = sub(subst(y.a[1], {var: add(var, C(1, 64))}), y.a[1])
            if d is C(k, 64):
                return seg(y.a[0], subst(y.a[1], {var: C(0, 64)}), scale(N, k))
    h = _height(X) + 1
    b = bvar(h)
    return mk('rep', 0, h, N, subst(X, {var: b}) if var is not b else X)


def _reb_str(t, m, S):
    s = EMPTY
    for p in t.a:
        s = append(s, S(p))
    return s


def _reb_seg(t, m, S):
    return seg(S(t.a[0]), S(t.a[1]), S(t.a[2]))


_tmpc = [0]


def _tmp():
    _tmpc[0] += 1
    return _cnt(sym(('tmpv', _tmpc[0]), 64))


def _reb_rep(t, m, S):
    h, N, X = t.a
    N2 = S(N)
    b = bvar(h)
    m2 = {k: v for k, v in m.items() if k is not b}
    tmp = _cnt(sym(('tmpv', 'r', h), 64))
    X1 = subst(X, {b: tmp})
    X2 = subst(X1, m2)
    return mkrep(tmp, N2, X2)


def mktrip(var, cont, system=()):
    """least var with not cont(var).  system: ((mu, init, next),...)"""
    system = canon_system(list(system))
    h = max([_height(cont)] + [max(_height(i), _height(x)) for _, i, x in system]) + 1
    mp = {var: bvar(h)}
    ren = []
    for k, (mu, init, nx) in enumerate(system):
        mp[mu] = sym(('bm', h, k), mu.w) if mu.w else mk('asym', 0, ('bm', h, k))
    sysr = tuple((init, subst(nx, mp)) for mu, init, nx in system)
    return mk('trip', 64, h, subst(cont, mp), sysr)


def _reb_trip(t, m, S):
    h, cont, sysr = t.a
    b = bvar(h)
    bs = {b: _cnt(sym(('tmpv', 't', h), 64))}
    mus = []
    for k, (init, nx) in enumerate(sysr):
        w = init.w
        old = sym(('bm', h, k), w) if w else mk('asym', 0, ('bm', h, k))
        new = sym(('tmpm', h, k), w) if w else mk('asym', 0, ('tmpm', h, k))
        bs[old] = new
        mus.append(new)
    m2 = {k: v for k, v in m.items() if k not in bs}
    c2 = subst(subst(cont, bs), m2)
    s2 = tuple((mus[k], S(init), subst(subst(nx, bs), m2)) for k, (init, nx) in enumerate(sysr))
    v = bs[b]
    return solve_trip(v, c2, s2)


def solve_trip(n, cont, system=()):
    """N = least n >= 0 with not cont(n)"""
    free = lambda t: not contains(t, n) and not any(contains(t, mu) for mu, _, _ in system)
    if cont is FALSE:
        return C(0, 64)
    # loop-invariant tests select between trip counts
    if cont.op == 'ite':
        seen = set()
        todo = [cont]
        while todo:
            x = todo.pop()
            if x.op != 'ite' or x in seen:
                continue
            seen.add(x)
            if free(x.a[0]) and len(seen) < 4000:
                at = x.a[0]
                c = node(at, TRUE, FALSE)
                c1, c0 = given(cont, c), given(cont, NOT(c))
                return ITE(c, solve_trip(n, c1, system), solve_trip(n, c0, system))
            todo.append(x.a[2])
            todo.append(x.a[1])
    if cont.op == 'ite' and cont.a[1].op == 'c' and cont.a[2].op == 'c':
        at = cont.a[0]
        pos = cont.a[1] is TRUE
        if at.op == 'ult' and pos:
            l, r = at.a
            B = _bound_ult(n, l, r, free)
            if B is not None:
                return B
        if at.op == 'eq' and not pos:
            l, r = at.a
            B = _bound_ne(n, l, r, free)
            if B is not None:
                return B
        if at.op == 'ult' and not pos:
            l, r = at.a     # continue while l >= r
            # decrementing: (B - n) >= k
            if l.op == 'lin' and free(r):
                pass
        if at.op == 'slt' and pos:
            l, r = at.a
            if free(r):
                B = _bound_slt(n, l, r, free)
                if B is not None:
                    return B
    rel = [s for s in system]
    return mktrip(n, cont, _needed(cont, system))


def _needed(t, system):
    need = []
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop(0)
        for s in system:
            if s[0] not in seen and contains(x, s[0]):
                seen.add(s[0])
                need.append(s)
                todo.append(s[2])
    return tuple(need)


def _coef(l, n):
    """l = k*n + rest ; n is 64-bit; l may be narrower (ext of n)"""
    if l is n:
        return 1, C(0, l.w)
    if l.w < 64:
        nn = ext(n, 0, l.w)
        if l is nn:
            return 1, C(0, l.w)
    else:
        nn = n
    if l.op == 'cat' and l.a[0].op == 'ext' and l.a[0].a[0] is n:
        # zero-extended truncated counter
        return None
    if l.op == 'lin':
        c, ps = l.a
        k = None
        rest = C(c, l.w)
        for z, kk in ps:
            if z is nn:
                k = kk
            else:
                rest = add(rest, scale(z, kk))
        if k is not None:
            return (k - (1 << l.w) if k >> (l.w - 1) else k), rest
    return None


def _to64(x):
    return zext(x, 64)


def _bound_ult(n, l, r, free):
    # (k*n + c) < B
    if free(r):
        kc = _coef(l, n)
        if kc and kc[0] > 0 and free(kc[1]):
            k, c = kc
            c, B = _to64(c), _to64(r)
            if c is C(0, 64):
                d = B
            else:
                d = ITE(ult(c, B), sub(B, c), C(0, 64))
            if k == 1:
                return d
            return udiv(add(d, C(k - 1, 64)), C(k, 64))
        if kc and kc[0] == -1 and r.op == 'c' and r.a[0] == 1 << (r.w - 1) and free(kc[1]):
            # sign test: B-1-n >= 0
            return _to64(add(kc[1], C(1, kc[1].w)))
    if free(l):
        # c < B - k n
        kc = _coef(r, n)
        if kc and kc[0] == -1 and free(kc[1]):
            c, B = _to64(l), _to64(kc[1])
            if c is C(0, 64):
                return B
            return ITE(ult(c, B), sub(B, c), C(0, 64))
    return None


def _bound_slt(n, l, r, free):
    kc = _coef(l, n)
    if kc and kc[0] == 1 and free(kc[1]):
        c, B = kc[1], r
        d = sub(B, c)
        return ITE(slt(c, B), sext(d, 64), C(0, 64))
    return None


def _bound_ne(n, l, r, free):
    d = sub(l, r)
    kc = _coef(d, n)
    if kc and free(kc[1]):
        k, c = kc
        if k == 1:
            return _to64(neg(c))
        if k == -1:
            return _to64(c)
    return None


def canon_system(order, keep=0):
    """naming-independent order of the components of a recurrence system: by width and initial value,
    ties by a structural digest of the step functions"""
    head, rest = list(order[:keep]), list(order[keep:])
    if len(rest) < 2:
        return head + rest
    key = {mu: (mu.w, init.id) for mu, init, nx in rest}
    if len(set(key.values())) < len(rest):
        mp = {}
        ks = sorted(set(key.values()))
        for mu, init, nx in rest:
            w = mu.w
            nm = ('col', ks.index(key[mu]))
            mp[mu] = sym(nm, w) if w else mk('asym', 0, nm)
        for k, (mu, init, nx) in enumerate(head):
            w = mu.w
            mp[mu] = sym(('colh', k), w) if w else mk('asym', 0, ('colh', k))
        key = {mu: key[mu] + (subst(nx, mp).id,) for mu, init, nx in rest}
    return head + sorted(rest, key=lambda e: key[e[0]])


def mkfold(var, N, which, system):
    """value after N steps of component `which` of the system ((mu,init,next),...)"""
    sysn = [s for s in system if s[0] is which]
    rest = _needed(sysn[0][2], [s for s in system if s[0] is not which])
    order = canon_system(sysn + list(rest), 1)
    h = max([0] + [max(_height(i), _height(x)) for _, i, x in order]) + 1
    mp = {var: bvar(h)}
    for k, (mu, init, nx) in enumerate(order):
        mp[mu] = sym(('bm', h, k), mu.w) if mu.w else mk('asym', 0, ('bm', h, k))
    sysr = tuple((init, subst(nx, mp)) for mu, init, nx in order)
    return mk('fold', which.w, h, N, sysr)


def _reb_fold(t, m, S):
    h, N, sysr = t.a
    b = bvar(h)
    bs = {b: _cnt(sym(('tmpv', 'f', h), 64))}
    mus = []
    for k, (init, nx) in enumerate(sysr):
        w = init.w
        old = sym(('bm', h, k), w) if w else mk('asym', 0, ('bm', h, k))
        new = sym(('tmpf', h, k), w) if w else mk('asym', 0, ('tmpf', h, k))
        bs[old] = new
        mus.append(new)
    m2 = {k: v for k, v in m.items() if k not in bs}
    s2 = [(mus[k], S(init), subst(subst(nx, bs), m2)) for k, (init, nx) in enumerate(sysr)]
    return mkfold(bs[b], S(N), mus[0], s2)


REB['str'] = _reb_str
REB['seg'] = _reb_seg
REB['rep'] = _reb_rep
REB['trip'] = _reb_trip
REB['fold'] = _reb_fold


def _reb_acells(t, m, S):
    base, cells = t.a
    b2 = S(base)
    return mkacells(b2, {o: (S(v), k) for o, v, k in cells})


def mkacells(base, cells):
    if not cells:
        return base
    if base.op == 'ite':
        return lift1(('acells', tuple(sorted((o, v.id, k) for o, (v, k) in cells.items()))), lambda z: mkacells(z, cells), base)
    if base.op == 'acells':
        d = {o: (v, k) for o, v, k in base.a[1]}
        d.update(cells)
        return mkacells(base.a[0], d)
    # normalise runs
    return mk('acells', 0, base, tuple((o, cells[o][0], cells[o][1]) for o in sorted(cells)))


REB['acells'] = _reb_acells


def _reb_astore(t, m, S):
    return mk('astore', 0, S(t.a[0]), S(t.a[1]), S(t.a[2]))


def mkacopy(A, off, n, B, bo):
    if any(x.op == 'ite' for x in (A, off, n, B, bo)):
        at = top(A, off, n, B, bo)
        g = lambda v: mkacopy(cof(A, at, v), cof(off, at, v), cof(n, at, v), cof(B, at, v), cof(bo, at, v))
        return ITE(node(at, TRUE, FALSE), g(1), g(0))
    if n.op == 'c' and n.a[0] == 0:
        return A
    if B.op == 'acopy' and B.a[1] is bo and (B.a[2] is n or ult(B.a[2], n) is FALSE):
        return mkacopy(A, off, n, B.a[3], B.a[4])
    if B.op == 'azero':
        return mkaset(A, off, n, C(0, 8))
    return mk('acopy', 0, A, off, n, B, bo)


def mkaset(A, off, n, b):
    if any(x.op == 'ite' for x in (A, off, n)):
        at = top(A, off, n)
        g = lambda v: mkaset(cof(A, at, v), cof(off, at, v), cof(n, at, v), b)
        return ITE(node(at, TRUE, FALSE), g(1), g(0))
    if n.op == 'c' and n.a[0] == 0:
        return A
    if A.op == 'azero' and b is C(0, 8):
        return A
    return mk('aset', 0, A, off, n, b)


REB['astore'] = _reb_astore
REB['acopy'] = lambda t, m, S: mkacopy(*[S(z) for z in t.a])
REB['aset'] = lambda t, m, S: mkaset(*[S(z) for z in t.a])


def afill(var, N, init, off, v):
    """array after writing v(var) at off(var) for var in 0..N-1"""
    k = v.w // 8
    d = sub(subst(off, {var: add(var, C(1, 64))}), off)
    if d is C(k, 64):
        o0 = subst(off, {var: C(0, 64)})
        if not contains(v, var):
            if v.op == 'c' and all(((v.a[0] >> (8 * i)) & 255) == (v.a[0] & 255) for i in range(k)):
                return mkaset(init, o0, scale(N, k), C(v.a[0] & 255, 8))
        elif v.op == 'sel' and not contains(v.a[0], var):
            dv = sub(subst(v.a[1], {var: add(var, C(1, 64))}), v.a[1])
            if dv is C(k, 64):
                return mkacopy(init, o0, scale(N, k), v.a[0], subst(v.a[1], {var: C(0, 64)}))
    h = max(_height(off), _height(v)) + 1
    b = bvar(h)
    return mk('afill', 0, h, N, init, subst(off, {var: b}), subst(v, {var: b}))


def _reb_afill(t, m, S):
    h, N, init, off, v = t.a
    b = bvar(h)
    tmp = _cnt(sym(('tmpv', 'a', h), 64))
    m2 = {k: x for k, x in m.items() if k is not b}
    return afill(tmp, S(N), S(init), subst(subst(off, {b: tmp}), m2), subst(subst(v, {b: tmp}), m2))


REB['afill'] = _reb_afill


# hash contexts -------------------------------------------------------------
def hctx(kind, size, s):
    """abstract hash context: `size` bytes of state that has absorbed stream s"""
    if s.op == 'ite':
        return lift1(('hctx', kind, size), lambda z: hctx(kind, size, z), s)
    return mk('hctx', 8 * size, kind, s)


REB['hctx'] = lambda t, m, S: hctx(t.a[0], t.w // 8, S(t.a[1]))
