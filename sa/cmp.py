"""Deciding equality of two value graphs.

`same` proves equality by case analysis on the gates of both graphs with structural descent.
If it fails, `refute` looks for a valuation of the symbolic inputs on which the two graphs take
different values (uninterpreted functions are valued as random functions); only such a
distinguishing valuation makes a difference reportable."""
import hashlib, random, time, os
from terms import *
from streams import *
import terms as _T
import sem as SEM
import bytefn as BF
import gf2 as GF


class Mismatch(Exception):
    pass


class Budget(Exception):
    pass


class Cmp:
    def __init__(self, budget=200000):
        self.n = 0
        self.budget = budget
        self.fail = []
        self.leaves = 0

    def same(self, a, b, pc=TRUE, eqs=()):
        self.n += 1
        if self.n > self.budget:
            raise Budget()
        if a is b:
            self.leaves += 1
            return True
        if pc is FALSE:
            return True
        if pc is not TRUE:
            a, b = given(a, pc), given(b, pc)
            if a is b:
                self.leaves += 1
                return True
        if 0 < a.w <= 64 and a.w == b.w:
            r = BF.decide(a, b, pc)
            if r:
                self.leaves += 1
                return True
        if 0 < a.w == b.w <= 64 and (a.op in GF.OPS or b.op in GF.OPS) and GF.same(a, b):
            self.leaves += 1
            return True
        if a.op == 'ite' or b.op == 'ite':
            at = top(a, b)
            pos = node(at, TRUE, FALSE)
            for v in (1, 0):
                c = pos if v else NOT(pos)
                pc2 = AND(pc, c)
                if pc2 is FALSE:
                    continue
                a2, b2 = cof(a, at, v), cof(b, at, v)
                e2 = eqs
                if v and at.op == 'eq':
                    e2 = eqs + (at,)
                    a2, b2 = self._se(a2, at), self._se(b2, at)
                if not self.same(a2, b2, pc2, e2):
                    return False
            return True
        for e in eqs:
            a, b = self._se(a, e), self._se(b, e)
        if a is b:
            self.leaves += 1
            return True
        if a.op == 'ite' or b.op == 'ite':
            return self.same(a, b, pc, eqs)
        if a.op == b.op and a.w == b.w:
            if self._desc(a, b, pc, eqs):
                return True
        if pc.op == 'ite' and a.w and a.w <= 64:
            a2, b2 = a, b
            for e in self._pceqs(pc):
                a2, b2 = self._se(a2, e), self._se(b2, e)
            if a2 is b2:
                self.leaves += 1
                return True
        if pc.op == 'ite':
            m = {}
            for x, k in BF.masks(pc).items():
                if k and k & (k - 1) == 0:
                    m[x] = C(k.bit_length() - 1, 8)
            if m:
                a2, b2 = subst(a, m), subst(b, m)
                if (a2 is not a or b2 is not b) and self._try(a2, b2, pc, eqs):
                    return True
        if pc.op == 'ite' and (self._empty(pc) or BF.empty(pc)):
            self.leaves += 1
            return True
        q = pc
        for e in eqs:
            q = self._se(q, e)
            if q is FALSE:
                self.leaves += 1
                return True
        self.fail.append((pc, a, b))
        return False

    def _empty(self, pc):
        """the conjunctive literals of pc leave some word no value"""
        b = {}
        x = pc
        while x.op == 'ite':
            at, h, l = x.a
            if l is FALSE:
                v, x = 1, h
            elif h is FALSE:
                v, x = 0, l
            else:
                break
            if at.op in ('eq', 'ult') and at.a[1].op == 'c' and at.a[0].op != 'c':
                s, k = at.a[0], at.a[1].a[0]
                e = b.setdefault(s, [rng(s)[0], rng(s)[1], set()])
                if at.op == 'ult':
                    if v:
                        e[1] = min(e[1], k - 1)
                    else:
                        e[0] = max(e[0], k)
                elif v:
                    e[0], e[1] = max(e[0], k), min(e[1], k)
                else:
                    e[2].add(k)
            elif at.op == 'ult' and at.a[0].op == 'c':
                s, k = at.a[1], at.a[0].a[0]
                e = b.setdefault(s, [rng(s)[0], rng(s)[1], set()])
                if v:
                    e[0] = max(e[0], k + 1)
                else:
                    e[1] = min(e[1], k)
        for lo, hi, ex in b.values():
            if hi < lo or hi - lo < len(ex) and all(k in ex for k in range(lo, hi + 1)):
                return True
        return False

    def _pceqs(self, pc):
        """equalities with a constant that pc implies conjunctively"""
        if not hasattr(self, '_pq'):
            self._pq = {}
        r = self._pq.get(pc)
        if r is None:
            r = []
            x = pc
            while x.op == 'ite':
                at, h, l = x.a
                if l is FALSE:
                    if at.op == 'eq' and at.a[1].op == 'c':
                        r.append(at)
                    x = h
                elif h is FALSE:
                    x = l
                else:
                    break
            self._pq[pc] = r
        return r

    def _se(self, t, at):
        l, r = at.a[0], at.a[1]
        if r.op == 'c' and l.op != 'c':
            m = {l: r}
            if l.op in ('sel', 'ext'):
                k, o = _T._root(l)
                for x in parts_of(t, k):
                    o2 = _T._root(x)[1]
                    if o <= o2 and o2 + x.w <= o + l.w:
                        m[x] = C(r.a[0] >> (o2 - o), x.w)
            return subst(t, m)
        if l.op == 'c' and r.op != 'c':
            return subst(t, {r: l})
        if l.op == 'sym' and not contains(r, l):
            return subst(t, {l: r})
        if r.op == 'sym' and not contains(l, r):
            return subst(t, {r: l})
        return t

    def _try(self, a, b, pc, eqs):
        k = len(self.fail)
        if self.same(a, b, pc, eqs):
            return True
        del self.fail[k + 1:]
        return False

    def _desc(self, a, b, pc, eqs):
        op = a.op
        if op in ('sym', 'c', 'asym', 'abytes', 'hst', 'smu'):
            return False
        if op == 'rep':
            # the binder is canonical by height; compare under the same bound variable
            h1, N1, X1 = a.a
            h2, N2, X2 = b.a
            if not self._try(N1, N2, pc, eqs):
                return False
            t = sym(('tmpv', 'cmp', self.n), 64)
            return self._try(subst(X1, {bvar(h1): t}), subst(X2, {bvar(h2): t}), pc, eqs)
        if op in ('trip', 'fold', 'afill', 'acells', 'lin'):
            if op == 'fold':
                return self._fold(a, b, pc, eqs)
            if op == 'trip':
                return self._fold(a, b, pc, eqs, True)
            return False
        if op == 'str':
            if len(a.a) != len(b.a):
                return False
            return all(self._try(x, y, pc, eqs) for x, y in zip(a.a, b.a))
        if op == 'cat':
            cuts = lambda t: [sum(p.w for p in t.a[:i]) for i in range(len(t.a) + 1)]
            cs = sorted(set(cuts(a)) | set(cuts(b)))
            for i, j in zip(cs, cs[1:]):
                x, y = ext(a, i, j - i), ext(b, i, j - i)
                if not (x is y):
                    if x.op == 'cat' and y.op == 'cat':
                        return False
                    if not self._try(x, y, pc, eqs):
                        return False
            return True
        if len(a.a) != len(b.a):
            return False
        if op in ('xor', 'and', 'or'):
            # commutative: cancel common operands, pair the rest by shape
            xs, ys = list(a.a), list(b.a)
            for x in list(xs):
                if x in ys:
                    xs.remove(x)
                    ys.remove(x)
            xs.sort(key=lambda t: (t.op, repr(t.a[0]) if t.op == 'f' else ''))
            ys.sort(key=lambda t: (t.op, repr(t.a[0]) if t.op == 'f' else ''))
            if len(xs) == 2 and xs[0].op != ys[0].op and xs[0].op == ys[1].op:
                ys.reverse()
            return all(x.w == y.w and self._try(x, y, pc, eqs) for x, y in zip(xs, ys))
        from terms import T
        for x, y in zip(a.a, b.a):
            if isinstance(x, T) and isinstance(y, T):
                if x.w != y.w or not self._try(x, y, pc, eqs):
                    return False
            elif x != y:
                return False
        return True

    def _fold(self, a, b, pc, eqs, trip=False):
        h1, N1, s1 = a.a
        h2, N2, s2 = b.a
        if len(s1) != len(s2):
            return False
        if not trip and not self._try(N1, N2, pc, eqs):
            return False
        t = sym(('tmpv', 'cmp', self.n), 64)
        m1, m2 = {bvar(h1): t}, {bvar(h2): t}
        for k, ((i1, x1), (i2, x2)) in enumerate(zip(s1, s2)):
            if i1.w != i2.w:
                return False
            w = i1.w
            new = sym(('cmpmu', self.n, k), w) if w else mk('asym', 0, ('cmpmu', self.n, k))
            for h, m in ((h1, m1), (h2, m2)):
                m[sym(('bm', h, k), w) if w else mk('asym', 0, ('bm', h, k))] = new
        if trip and not self._try(subst(N1, m1), subst(N2, m2), pc, eqs):
            return False
        for (i1, x1), (i2, x2) in zip(s1, s2):
            if not self._try(i1, i2, pc, eqs):
                return False
            if not self._try(subst(x1, m1), subst(x2, m2), pc, eqs):
                return False
        return True


def parts_of(t, key):
    """the sub-words of root `key` occurring in t"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('sel', 'ext') and _T._root(x)[0] == key:
            out.append(x)
        st.extend(children(x))
    return out


# ---------------------------------------------------------------- valuation
class GiveUp(Exception):
    pass


def _h(*a):
    return int.from_bytes(hashlib.shake_128(repr(a).encode()).digest(264), "little")      # wide enough for every summary


# summaries valued as arbitrary functions: a valuation may choose their value
FREE = {'polymod'}


class Ev:
    LIM = 3000

    def __init__(self, seed, style=0, toy=False, focus=(), consts=()):
        self.toy = toy
        self.focus = focus
        self.consts = consts
        self.seed = seed
        self.style = style
        self.syms = {}
        self.pins = {}
        self.mem = {}
        self.memo = {}
        self.rnd = random.Random(seed)
        self.steps = 0

    def rv(self, key, w, foc=False):
        x = _h(self.seed, key, w)
        if w <= 1:
            return x & 1
        k = (x >> 200) % 8
        if self.toy and w % 256 == 0:
            return SEM.small(x, w)
        cs = self.consts.get(w, ()) if self.consts else ()
        if cs and (x >> 210) % 3 < (2 if w == 8 else 1):
            return (cs[(x >> 216) % len(cs)] + (0, 0, 1, -1)[(x >> 232) % 4]) & ((1 << w) - 1)
        if foc and k != 7:
            return x & ((1 << w) - 1)
        if w >= 32 and self.style != 2:
            # lengths and counts: mostly small
            if w == 64 or k < 3:
                return (x % 4) if self.style == 0 else (x % 40)
        return x & ((1 << w) - 1)

    def byte(self, arr, off):
        k = (arr, off)
        if k in self.mem:
            return self.mem[k]
        # pinned on first read, so that words read in different granularity agree
        v = self.mem[k] = _h(self.seed, 'm', arr, off) & 255
        return v

    def setsel(self, arr, off, n, v):
        for i in range(n):
            self.mem[(arr, off + i)] = (v >> (8 * i)) & 255

    # value of a term: int for w>0; bytes for streams; callable for arrays
    def ev(self, t, env=None):
        self.steps += 1
        if self.steps > 400000:
            raise GiveUp('1')
        env = env or {}
        key = (t, tuple(sorted((k.id, v) for k, v in env.items() if not callable(v)))) if env else t
        if not any(callable(v) for v in env.values()):
            r = self.memo.get(key)
            if r is not None:
                return r
            r = self._ev(t, env)
            self.memo[key] = r
            return r
        return self._ev(t, env)

    def arr(self, A, env):
        """byte reader for an array term"""
        op = A.op
        if A in env:
            return env[A]
        if op == 'asym':
            o = A.a[0]
            if o[0] == 'pt':
                ident = ('pt', self.ev(o[1], env))
            else:
                ident = repr(o)
            return lambda i: self.byte(ident, i & ((1 << 64) - 1))
        if op == 'azero':
            return lambda i: 0
        if op == 'abytes':
            d = A.a[0]
            return lambda i: d[i] if 0 <= i < len(d) else self.byte(('ab', d[:16]), i)
        if op == 'acells':
            base = self.arr(A.a[0], env)
            d = {o: (v, k) for o, v, k in A.a[1]}

            def g(i):
                if i >= 1 << 63:
                    i -= 1 << 64
                if i in d:
                    v, k = d[i]
                    if v.op == 'hctx':
                        raise GiveUp('2')
                    return (self.ev(v, env) >> (8 * k)) & 255
                return base(i)
            return g
        if op == 'astore':
            base = self.arr(A.a[0], env)
            off, v = self.ev(A.a[1], env), self.ev(A.a[2], env)
            n = A.a[2].w // 8
            return lambda i: (v >> (8 * (i - off))) & 255 if off <= i < off + n else base(i)
        if op == 'aset':
            base = self.arr(A.a[0], env)
            off, n, b = self.ev(A.a[1], env), self.ev(A.a[2], env), self.ev(A.a[3], env)
            return lambda i: b if off <= i < off + n else base(i)
        if op == 'acopy':
            base = self.arr(A.a[0], env)
            off, n = self.ev(A.a[1], env), self.ev(A.a[2], env)
            src = self.arr(A.a[3], env)
            so = self.ev(A.a[4], env)
            return lambda i: src(so + i - off) if off <= i < off + n else base(i)
        if op == 'ite':
            return self.arr(A.a[1] if self.atom(A.a[0], env) else A.a[2], env)
        if op == 'afill':
            h, N, init, off, v = A.a
            k = self.ev(N, env)
            if k > self.LIM:
                raise GiveUp('3')
            base = self.arr(init, env)
            d = {}
            b = bvar(h)
            for i in range(k):
                e2 = dict(env)
                e2[b] = i
                o = self.ev(off, e2)
                x = self.ev(v, e2)
                for q in range(v.w // 8):
                    d[o + q] = (x >> (8 * q)) & 255
            return lambda i: d[i] if i in d else base(i)
        if op == 'fold':
            return self._fold(A, env)
        raise GiveUp('4')

    def atom(self, at, env):
        op = at.op
        if op == 'eq':
            return self.ev(at.a[0], env) == self.ev(at.a[1], env)
        if op == 'ult':
            return self.ev(at.a[0], env) < self.ev(at.a[1], env)
        if op == 'slt':
            w = at.a[0].w
            s = lambda x: x - (1 << w) if x >> (w - 1) else x
            return s(self.ev(at.a[0], env)) < s(self.ev(at.a[1], env))
        if op == 'bit':
            return bool((self.ev(at.a[0], env) >> at.a[1]) & 1) if len(at.a) > 1 else bool(self.ev(at.a[0], env) & 1)
        vals = tuple(self.ev(x, env) if isinstance(x, T) else x for x in at.a)
        if at in self.syms:
            return self.syms[at]
        r = SEM.call(op, vals, 1)
        if r is not None:
            return bool(r)
        return bool(_h(self.seed, op, vals) & 1)

    def _fold(self, t, env):
        h, N, sysr = t.a
        k = self.ev(N, env)
        if k > self.LIM:
            raise GiveUp('5')
        return self._steps(h, sysr, env, lambda i, e: i < k)[0]

    def _steps(self, h, sysr, env, cond):
        b = bvar(h)
        cur = []
        keys = []
        for q, (init, nx) in enumerate(sysr):
            w = init.w
            keys.append(sym(('bm', h, q), w) if w else mk('asym', 0, ('bm', h, q)))
            cur.append(self.ev(init, env) if w else self.arr(init, env))
        i = 0
        while True:
            e2 = dict(env)
            e2[b] = i
            for kk, v in zip(keys, cur):
                e2[kk] = v
            if not cond(i, e2):
                return cur + [i]
            if i > self.LIM:
                raise GiveUp('6')
            cur = [self.ev(nx, e2) if init.w else self.arr(nx, e2) for init, nx in sysr]
            i += 1

    def _ev(self, t, env):
        op = t.op
        w = t.w
        if t in env:
            return env[t]
        M = (1 << w) - 1
        if op == 'c':
            return t.a[0]
        if op == 'sym':
            if t in self.syms:
                return self.syms[t]
            return self.rv(('s', repr(t.a[0])), w, t in self.focus)
        if op == 'ite':
            return self.ev(t.a[1] if self.atom(t.a[0], env) else t.a[2], env)
        if op in ('eq', 'ult', 'slt'):
            return int(self.atom(t, env))
        if op == 'lin':
            r = t.a[0]
            for z, k in t.a[1]:
                r += k * self.ev(z, env)
            return r & M
        if op == 'cat':
            r = s = 0
            for p in t.a:
                if p.op == 'nil':
                    continue
                r |= self.ev(p, env) << s
                s += p.w
            return r
        if op == 'ext':
            return (self.ev(t.a[0], env) >> t.a[1]) & M
        if op == 'sel':
            A = self.arr(t.a[0], env)
            o = self.ev(t.a[1], env)
            n = w // 8
            ident = None
            if t.a[0].op == 'asym' and (n in (1, 2, 4, 8) or self.toy and n % 32 == 0):
                oo = t.a[0].a[0]
                ident = ('pt', self.ev(oo[1], env)) if oo[0] == 'pt' else repr(oo)
                if not any((ident, o + i) in self.mem for i in range(n)):
                    self.setsel(ident, o, n, self.rv(('w', ident, o), w, t in self.focus))
            return sum(A(o + i) << (8 * i) for i in range(n))
        if op in ('and', 'or', 'xor'):
            vs = [self.ev(x, env) for x in t.a]
            r = vs[0]
            for v in vs[1:]:
                r = r & v if op == 'and' else r | v if op == 'or' else r ^ v
            return r
        if op == 'mul':
            r = 1
            for x in t.a:
                r *= self.ev(x, env)
            return r & M
        if op in ('udiv', 'urem'):
            x, y = self.ev(t.a[0], env), self.ev(t.a[1], env)
            if y == 0:
                raise GiveUp('7')
            return x // y if op == 'udiv' else x % y
        if op in ('sdiv', 'srem'):
            s = lambda x: x - (1 << w) if x >> (w - 1) else x
            x, y = s(self.ev(t.a[0], env)), s(self.ev(t.a[1], env))
            if y == 0:
                raise GiveUp('8')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q * y) & M
        if op in ('shl', 'lshr', 'ashr'):
            x, y = self.ev(t.a[0], env), self.ev(t.a[1], env)
            if y >= w:
                raise GiveUp('9')
            if op == 'shl':
                return (x << y) & M
            if op == 'lshr':
                return x >> y
            s = x - (1 << w) if x >> (w - 1) else x
            return (s >> y) & M
        if op == 'not':
            return ~self.ev(t.a[0], env) & M
        if op == 'str':
            out = b''
            for p in t.a:
                if p.w > 0:
                    out += self.ev(p, env).to_bytes(p.w // 8, 'little')
                else:
                    v = self.ev(p, env)
                    out += v if isinstance(v, bytes) else repr(v).encode()
            return out
        if op == 'seg':
            A = self.arr(t.a[0], env)
            o, n = self.ev(t.a[1], env), self.ev(t.a[2], env)
            if n > 20000:
                raise GiveUp('10')
            return bytes(A(o + i) for i in range(n))
        if op == 'rep':
            h, N, X = t.a
            k = self.ev(N, env)
            if k > self.LIM:
                raise GiveUp('11')
            out = b''
            b = bvar(h)
            for i in range(k):
                e2 = dict(env)
                e2[b] = i
                out += self.ev(X, e2)
            return out
        if op == 'fold':
            return self._fold(t, env)
        if op == 'trip':
            h, cont, sysr = t.a
            return self._steps(h, sysr, env, lambda i, e: self.ev(cont, e))[-1]
        if op == 'hctx':
            return _h('hctx', t.a[0], self.ev(t.a[1], env)) & M
        if op == 'hst':
            return ('hst', self.ev(t.a[0], env))
        if op == 'ptr':
            o = t.a[0]
            base = self.ev(o[1], env) if o[0] == 'pt' else _h(self.seed, 'obj', o) & ((1 << 48) - 1)
            return (base + self.ev(t.a[1], env)) & M
        if op in ('asym', 'acells', 'astore', 'acopy', 'aset', 'afill', 'azero', 'abytes'):
            A = self.arr(t, env)
            if self.ext_arr is None:
                raise GiveUp('12')
            return bytes(A(i) for i in range(self.ext_arr))
        if op == 'f':
            if t.a[0] == 'strlen':
                A = self.arr(t.a[1], env)
                o = self.ev(t.a[2], env)
                for i in range(2000):
                    if A(o + i) == 0:
                        return i
                raise GiveUp('13')
            if t.a[0] in ('strcmp', 'strncmp') and len(t.a) >= 5:
                A, B = self.arr(t.a[1], env), self.arr(t.a[3], env)
                o, o2 = self.ev(t.a[2], env), self.ev(t.a[4], env)
                lim = self.ev(t.a[5], env) if len(t.a) > 5 else 2000
                for i in range(min(lim, 2000)):
                    x, y = A(o + i), B(o2 + i)
                    if x != y:
                        return (1 if x > y else -1) & M
                    if x == 0:
                        return 0
                if len(t.a) > 5 and lim <= 2000:
                    return 0
                raise GiveUp('14')
            if t.a[0] in ('strcmp', 'strncmp', 'strchr'):
                raise GiveUp('15')
            vals = []
            for x in t.a[1:]:
                vals.append(self.ev(x, env) if isinstance(x, T) else x)
            if t.a[0] == 'memcmp_sign':
                return (0 if vals[0] == vals[1] else 1 if vals[0] > vals[1] else -1) & M
            if t.a[0] == 'bswap':
                return int.from_bytes(vals[0].to_bytes(w // 8, 'little'), 'big')
            if self.pins and (t.a[0], tuple(vals)) in self.pins:
                return self.pins[(t.a[0], tuple(vals))]
            r = SEM.call(t.a[0], vals, w)
            if r is not None:
                return r
            r = _h(t.a[0], vals)
            if self.toy and w % 256 == 0:
                return SEM.small(r, w)
            lo, hi = rng(t)
            return lo + r % (hi - lo + 1)
        if op == 'sx':
            x = self.ev(t.a[0], env)
            k = t.a[0].w
            return (x - (1 << k) if x >> (k - 1) else x) & M
        raise GiveUp('operator ' + op)

    ext_arr = 64

    # --------------------------------------------------------- solving simple literals
    def force(self, x, v):
        v &= (1 << x.w) - 1
        if x.op == 'sym':
            if x in self.syms and self.syms[x] != v:
                return False
            self.syms[x] = v
            self.memo.clear()
            return True
        if x.op == 'sel' and x.a[0].op == 'asym':
            o = x.a[0].a[0]
            ident = ('pt', self.ev(o[1])) if o[0] == 'pt' else repr(o)
            self.setsel(ident, self.ev(x.a[1]), x.w // 8, v)
            self.memo.clear()
            return True
        if x.op == 'cat':
            s = 0
            ok = True
            for p in x.a:
                if p.op == 'c':
                    if (v >> s) & ((1 << p.w) - 1) != p.a[0]:
                        return False
                else:
                    ok = self.force(p, v >> s) and ok
                s += p.w
            return ok
        if x.op == 'ext':
            y = self.ev(x.a[0])
            m = ((1 << x.w) - 1) << x.a[1]
            return self.force(x.a[0], (y & ~m) | (v << x.a[1]))
        if x.op == 'lin' and len(x.a[1]) >= 1:
            z, k = x.a[1][0]
            rest = x.a[0] + sum(kk * self.ev(zz) for zz, kk in x.a[1][1:])
            d = (v - rest) & ((1 << x.w) - 1)
            if k == 1:
                return self.force(z, d)
            if k == (1 << x.w) - 1:
                return self.force(z, -d)
            if d % k == 0:
                return self.force(z, d // k)
        if x.op == 'xor':
            vs = [self.ev(y) for y in x.a]
            for k, y in enumerate(x.a):
                r = v
                for j, z in enumerate(vs):
                    if j != k:
                        r ^= z
                if y.op != 'c' and self.force(y, r):
                    return True
            return False
        if x.op == 'f' and x.a[0] == 'bswap':
            n = x.w // 8
            return self.force(x.a[1], int.from_bytes(v.to_bytes(n, 'little'), 'big'))
        if x.op == 'f' and x.a[0] in FREE:
            key = (x.a[0], tuple(self.ev(y) if isinstance(y, T) else y for y in x.a[1:]))
            if self.pins.get(key, v) != v:
                return False
            self.pins[key] = v
            self.memo.clear()
            return True
        return False


def lits(pc, rnd, maxn=400):
    """a random path to TRUE in pc: [(atom, bool)]"""
    out = []
    x = pc
    while x.op == 'ite':
        at, h, l = x.a
        ch = []
        if h is not FALSE:
            ch.append((1, h))
        if l is not FALSE:
            ch.append((0, l))
        v, x = rnd.choice(ch)
        out.append((at, v))
    return out if x is TRUE else None


_LATE = {}


def _late(at):
    """conditions on a freely valued summary are solved last"""
    r = _LATE.get(at)
    if r is None:
        r = _LATE[at] = any(isinstance(x, T) and (x.op == 'f' and x.a[0] in FREE or x.op == 'xor' and any(y.op == 'f' and y.a[0] in FREE for y in x.a)) for x in at.a)
    return r


def valuation(pc, k, toy=False, focus=(), consts=()):
    rnd = random.Random(k)
    e = Ev(k, style=rnd.choice((0, 0, 1, 1, 1, 2)), toy=toy, focus=focus, consts=consts)
    ls = lits(pc, rnd)
    if ls is None:
        return None
    try:
        m = BF.masks(pc) if pc.op == 'ite' and rnd.random() < 0.7 else {}
    except RecursionError:
        m = {}
    if m:
        # bytes are chosen among the values pc leaves them; their conditions need no further solving
        try:
            for x, k in m.items():
                if not k:
                    return None
                v = [i for i in range(256) if k >> i & 1] if k != BF.FULL else None
                if v is not None and not k >> e.ev(x) & 1:
                    e.force(x, rnd.choice(v))
        except GiveUp:
            return None
        rest = []
        for at, v in ls:
            b = BF.batoms(at, 1)
            if b and next(iter(b)) in m:
                continue
            rest.append((at, v))
        ls = rest
    ls.sort(key=lambda z: _late(z[0]))
    for _ in range(3):
        bad = 0
        for at, v in ls:
            try:
                if e.atom(at, {}) == bool(v):
                    continue
            except GiveUp:
                return None
            bad += 1
            try:
                if at.op == 'eq':
                    l, r = at.a
                    if v:
                        if not e.force(l, e.ev(r)):
                            e.force(r, e.ev(l))
                    else:
                        if not e.force(l, e.ev(r) + 1 + rnd.randrange(3)):
                            e.force(r, e.ev(l) + 1)
                elif at.op == 'ult':
                    l, r = at.a
                    if v:
                        rv = e.ev(r)
                        if not (rv and e.force(l, rnd.choice([rv - 1, 0, rnd.randrange(rv)]))):
                            e.force(r, e.ev(l) + 1 + rnd.randrange(4))
                    else:
                        if not e.force(l, e.ev(r) + rnd.choice([0, 1, rnd.randrange(40)])):
                            e.force(r, e.ev(l))
                elif at.op == 'slt':
                    l, r = at.a
                    if v:
                        e.force(l, e.ev(r) - 1)
                    else:
                        e.force(l, e.ev(r))
                elif at.op not in SEM.TAB:
                    e.syms[at] = bool(v)
                    e.memo.clear()
            except GiveUp:
                return None
        if not bad:
            break
    return e


import collections
STAT = collections.Counter()


def _survey(ts):
    """(free words, {width: constants compared with or added}) of the terms"""
    seen, foc, cs = set(), set(), {}
    st = [x for x in ts if isinstance(x, T)]
    while st:
        t = st.pop()
        if t in seen or len(seen) > 60000:
            continue
        seen.add(t)
        if t.op in ('sym', 'sel'):
            foc.add(t)
        if t.op in ('eq', 'ult', 'slt') or t.op == 'ite' and t.a[0].op in ('eq', 'ult', 'slt'):
            at = t if t.op != 'ite' else t.a[0]
            for x in at.a:
                if x.op == 'c':
                    cs.setdefault(x.w, set()).add(x.a[0])
        st += children(t)
        if t.op == 'ite':
            st.append(t.a[0])
    return foc, {w: sorted(v) for w, v in cs.items()}


def uses_group(ts):
    seen = set()
    st = [x for x in ts if isinstance(x, T)]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'f' and t.a[0] in SEM.TAB or t.op in SEM.TAB:
            return True
        st += children(t)
        if t.op == 'ite':
            st.append(t.a[0])
    return False


REAL = False      # evaluate group operations in the real group only


def refute(a, b, pc=TRUE, tries=300, ext=64, fails=(), limit=20):
    """a valuation distinguishing a and b under pc, or None"""
    t0 = time.time()
    fails = [(p, _survey((x, y))[0]) for p, x, y in fails]
    fails = [z for z in fails if len(z[1]) <= 16] or fails[:1]
    hints = [p for p, _ in fails]
    foc = [x for _, x in fails]
    _, consts = _survey((a, b, pc))
    group = uses_group((a, b))
    try:
        for k in range(tries * (400 if group else 1)):
            if time.time() - t0 > limit:
                break
            h = pc
            R = random.Random(k * 7919 + 1)
            q = R.randrange(len(hints)) if hints else 0
            if hints:
                h2 = AND(pc, hints[q])
                if h2 is not FALSE and R.random() < (0.3 if group else 0.6):
                    h = h2
            toy = group and not REAL and R.random() < 0.96
            SEM.mode(toy)
            e = valuation(h, k + 1, toy, foc[q] if foc and R.random() < 0.6 else (), consts if R.random() < 0.6 else ())
            STAT['tries'] += 1
            if e is None:
                STAT['noval'] += 1
                continue
            e.ext_arr = ext
            e.steps = 0
            try:
                if not e.ev(pc):
                    STAT['pc'] += 1
                    continue
                x, y = e.ev(a), e.ev(b)
                STAT['ok'] += 1
            except (GiveUp, RecursionError, MemoryError) as ex:
                STAT['giveup ' + str(ex)[:40]] += 1
                continue
            if x != y:
                return e, x, y
    finally:
        SEM.mode(False)
        if os.environ.get('VERIF_DBG'):
            print('refute', STAT, time.time() - t0, flush=True)
    return None


def compare(a, b, pc=TRUE, tries=300):
    """('equal', n) | ('different', witness...) | ('unknown', reason)"""
    c = Cmp()
    try:
        if c.same(a, b, pc):
            return ('equal', c.leaves)
        a2, b2 = BF.renorm(a, pc), BF.renorm(b, pc)
        if a2 is b2 or (a2 is not a or b2 is not b) and Cmp().same(a2, b2, pc):
            return ('equal', c.leaves)
        a2, b2 = GF.norm(a), GF.norm(b)
        if (a2 is not a or b2 is not b) and Cmp().same(a2, b2, pc):
            return ('equal', c.leaves)
        why = c.fail[:3]
    except Budget:
        why = [(pc, a, b)]
    r = refute(a, b, pc, tries, fails=c.fail[:6])
    if r is not None:
        return ('different', r, why)
    return ('unknown', why)
