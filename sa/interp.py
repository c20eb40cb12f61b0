"""Value-numbering abstract interpreter over SSA IR.

One forward pass per function body in reverse post-order; control-flow joins merge the
abstract states (values become gated conditionals), so there is no path enumeration.
Calls are analysed in context (by substitution of the callee's body).  Loops with
compile-time-known control are partially evaluated; all others are summarised by
recurrence solving (induction variables, stream appends, array fills) over an unbounded
symbolic iteration counter.
"""
import os
from terms import *
from streams import *
import ir as IR
import bytefn as BF
import gf2 as GF


SIGS = {}
try:
    for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sigs.txt')):
        SIGS[_l.split()[0]] = _l.split(None, 1)[1].strip()
except OSError:
    pass


class Unsupported(Exception):
    pass


class O:
    __slots__ = ('base', 'cells', 'size', 'tok', 'freed', 'origin')

    def __init__(s, base, size, tok, origin=None):
        s.base = base
        s.cells = {}
        s.size = size
        s.tok = tok
        s.freed = FALSE
        s.origin = origin

    def copy(s, tok):
        o = O(s.base, s.size, tok, s.origin)
        o.cells = dict(s.cells)
        o.freed = s.freed
        return o

    def array(s):
        return mkacells(s.base, s.cells) if s.cells else s.base


_tok = [0]


def newtok():
    _tok[0] += 1
    return _tok[0]


class State:
    __slots__ = ('mem', 'pc', 'tok')

    def __init__(s):
        s.mem = {}
        s.pc = TRUE
        s.tok = newtok()

    def fork(s):
        n = State.__new__(State)
        n.mem = dict(s.mem)
        n.pc = s.pc
        n.tok = newtok()
        s.tok = newtok()
        return n

    def w(s, obj):
        """writable object"""
        o = s.mem[obj]
        if o.tok != s.tok:
            o = o.copy(s.tok)
            s.mem[obj] = o
        return o


# ---------------------------------------------------------------- loop structure
class Loop:
    __slots__ = ('header', 'blocks', 'parent', 'children', 'order', 'key')


def structure(fn):
    """dominators, loops, RPO"""
    if hasattr(fn, '_struct'):
        return fn._struct
    fn.parse()
    order = []
    seen = set()
    st = [(fn.blocks[0].name, iter(fn.blocks[0].succ))]
    seen.add(fn.blocks[0].name)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(fn.bmap[s].succ)))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in fn.bmap[b].pred:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in fn.bmap[b].succ:
            if s in idx and idx[s] <= idx[b]:
                if not dom(s, b):
                    raise Unsupported('irreducible flow in ' + fn.name)
                L = loops.get(s)
                if L is None:
                    L = Loop()
                    L.header = s
                    L.blocks = {s}
                    L.parent = None
                    L.children = []
                    L.key = (fn.name, s)
                    loops[s] = L
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        stack.extend(p for p in fn.bmap[x].pred if p in idx)
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.header in m.blocks:
                l.parent = m
                m.children.append(l)
                break

    def mkorder(blocks, loopset):
        out = []
        inner = {}
        for l in loopset:
            for b in l.blocks:
                inner[b] = l
        done = set()
        for b in rpo:
            if b not in blocks:
                continue
            if b in inner:
                l = inner[b]
                if l.header not in done:
                    done.add(l.header)
                    out.append(l)
            else:
                out.append(b)
        return out
    for l in ls:
        l.order = mkorder(l.blocks, l.children)
    tops = [l for l in ls if l.parent is None]
    fn._struct = (rpo, loops, mkorder(set(rpo), tops))
    return fn._struct


def _lk(x):
    return repr(x) if not isinstance(x, tuple) or not isinstance(x[0], tuple) else (repr(x[0]), x[1], x[2])


class Act:
    """function activation"""
    __slots__ = ('fn', 'env', 'rets', 'objs', 'va')

    def __init__(s, fn):
        s.fn = fn
        s.env = {}
        s.rets = []
        s.objs = []


class Interp:
    UNROLL = 700

    def __init__(self, mod, models=None, devirt=None, malloc_fails=False, unroll=None, bytefn=False, bounded=False, bits=False):
        self.mod = mod
        self.bytefn = bytefn        # normalise functions of a single byte to tables
        self.bits = bits            # a test of a single bit is kept as that bit when it becomes a number
        self.bounded = bounded      # unroll every loop while its guard can hold
        self.unroll = unroll or {}
        self.models = dict(models or {})
        self.cnt = 0
        self.ldepth = 0
        self.depth = 0
        self.stack = []
        self.nins = 0
        self.covered = set()
        self.devirt = devirt
        self.malloc_fails = malloc_fails
        self.gcache = {}
        self.ginit = {}
        self.fixlen = {}         # objects made of words of one known length
        self.on_pop = None
        self.on_access = None
        self.on_call = None
        self.called = set()
        self.quiet = 0
        self.summaries = []
        self.sitecount = {}
        self.budget = 40_000_000

    # ------------------------------------------------------------ objects
    def fresh(self):
        self.cnt += 1
        return self.cnt

    def new_obj(self, st, kind, size, label, base=None, origin=None):
        k = self.fresh()
        obj = (kind, k, label)
        if base is None:
            base = mk('asym', 0, ('undef',) + obj)
        st.mem[obj] = O(base, size, st.tok, origin)
        return obj

    def obj(self, st, obj):
        o = st.mem.get(obj)
        if o is None:
            if obj[0] == 'g':
                o = self.global_obj(obj[1])
            elif obj[0] == 'pt':
                if obj[1].op == 'sym' and isinstance(obj[1].a[0], tuple) and obj[1].a[0][0] in ('mu', 'bm'):
                    # which object a loop-carried pointer designates is not known
                    raise Unsupported('access through a loop-carried pointer')
                o = O(mk('asym', 0, obj), None, -1)
            else:
                raise Unsupported(f'dead object {obj}')
            st.mem[obj] = o
        return o

    def global_obj(self, g):
        if g in self.gcache:
            return self.gcache[g]
        if g in self.ginit:
            o = self.gcache[g] = self.ginit[g](self)
            return o
        info = self.mod.global_info(g)
        if info is None:
            o = O(mk('asym', 0, ('g', g)), None, -1)
        else:
            t, init, isconst = info
            size = self.mod.size(t)
            cells = {}
            if init is None:
                o = O(mk('asym', 0, ('g', g)), C(size, 64), -1)
            else:
                if not isconst:
                    # mutable global: contents unknown unless the check says otherwise
                    o = O(mk('asym', 0, ('g', g)), C(size, 64), -1)
                    if getattr(self, 'globals_init', False) or self.mod.never_written(g):
                        isconst = True
                if isconst:
                    data = bytearray(size)
                    ptrs = []
                    self._flat(t, init, 0, data, ptrs)
                    o = O(mk('abytes', 0, bytes(data)), C(size, 64), -1)
                    for off, tv in ptrs:
                        for k in range(8):
                            o.cells[off + k] = (tv, k)
        self.gcache[g] = o
        return o

    def _flat(self, t, c, off, data, ptrs):
        m = self.mod
        r = m.resolve(t)
        k = c[0]
        if k in ('zero', 'undef'):
            return
        if k == 'i':
            n = m.size(r)
            data[off:off + n] = (c[1] & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
            return
        if k == 'bytes':
            data[off:off + len(c[1])] = c[1]
            return
        if k == 'agg':
            if r.k == 'arr':
                es = m.size(r.a[1])
                for i, (et, e) in enumerate(c[1]):
                    self._flat(et, e, off + i * es, data, ptrs)
            else:
                offs = m.offsets(r)
                for i, (et, e) in enumerate(c[1]):
                    self._flat(et, e, off + offs[i], data, ptrs)
            return
        if k in ('g', 'cgep', 'ccast'):
            ptrs.append((off, self.const(c, IR.PTR)))
            return
        if k == 'f':
            return
        raise Unsupported('const ' + k)

    def const(self, c, ty):
        k = c[0]
        if k == 'i':
            return C(c[1], self.width(ty))
        if k in ('undef',):
            return mk('sym', self.width(ty), ('poison',))
        if k == 'zero':
            return C(0, self.width(ty))
        if k == 'g':
            g = c[1]
            return mkptr(('g', self.mod.aliases.get(g, g)), C(0, 64))
        if k == 'cgep':
            base = self.const(c[2], IR.PTR)
            return self.gep(base, c[1], [(t, self.const(v, t)) for t, v in c[3]])
        if k == 'ccast':
            v = self.const(c[3], c[2])
            return v
        if k == 'cbin':
            a, b = self.const(c[3], c[2]), self.const(c[4], c[2])
            return {'add': add, 'sub': sub, 'mul': mul}[c[1]](a, b)
        if k == 'f':
            return mk('sym', self.width(ty), ('float', c[1]))
        raise Unsupported('const operand ' + k)

    def width(self, ty):
        r = self.mod.resolve(ty)
        if r.k == 'i':
            return r.a[0]
        if r.k == 'ptr':
            return 64
        if r.k == 'double':
            return 64
        if r.k == 'float':
            return 32
        if r.k == 'struct':
            return 8 * self.mod.size(r)
        if r.k == 'void':
            return 0
        raise Unsupported('width ' + repr(r))

    # ------------------------------------------------------------ memory
    def gep(self, base, st, idx):
        m = self.mod
        p = aspt(base)
        off = C(0, 64)
        t = st
        for k, (it, iv) in enumerate(idx):
            if iv.w < 64:
                iv = sext(iv, 64)
            if k == 0:
                off = add(off, scale(iv, m.size(t)))
            else:
                r = m.resolve(t)
                if r.k == 'struct':
                    i = iv.a[0]
                    off = add(off, C(m.offsets(r)[i], 64))
                    t = r.a[0][i]
                else:
                    off = add(off, scale(iv, m.size(r.a[1])))
                    t = r.a[1]
        return add(p, off)

    def ptr_leaves(self, st, p):
        """[(cond, obj, off)] for a pointer term; null leaves dropped when others exist"""
        p = given(p, st.pc)
        out = []
        for c, q in leaves(aspt(p)):
            if q.op == 'ptr':
                o = q.a[0]
                if o[0] == 'pt' and o[1].op == 'c':
                    continue
                if given(c, st.pc) is FALSE or AND(c, st.pc) is FALSE:
                    continue
                out.append((c, o, q.a[1]))
        return out

    def nulls(self, st, p, ins):
        """report the conditions under which a pointer that is used is null"""
        for c, q in leaves(aspt(given(p, st.pc))):
            if (q.op == 'ptr' and q.a[0][0] == 'pt' and q.a[0][1].op == 'c' and q.a[1].op == 'c') or q.op == 'c':
                if AND(c, st.pc) is not FALSE:
                    self.on_access('n', st, None, None, None, ins, c)

    def load(self, st, p, n, ins=None):
        if self.on_access and not self.quiet and ins is not None:
            self.nulls(st, p, ins)
        ls = self.ptr_leaves(st, p)
        if not ls:
            return mk('sym', 8 * n, ('nullread',))
        r = None
        for c, o, off in ls:
            if self.on_access and not self.quiet:
                self.on_access('r', st, o, off, C(n, 64), ins, c)
            v = self.read(st, o, off, n)
            r = v if r is None else ITE(c, v, r)
        return r

    def read(self, st, obj, off, n):
        o = self.obj(st, obj)
        if o.base.op == 'aptab' and n == 8:
            # table whose entry i is a pointer to byte i*stride of another object, ended by a null pointer
            b, stride, count = o.base.a
            if off.op == 'c':
                return mkptr(b, C(off.a[0] // 8 * stride, 64)) if off.a[0] // 8 < count else C(0, 64)
            bs = GF.bits(off)
            if not any(bs[:3]) and not any(bs[3 + (count - 1).bit_length():]) and count & (count - 1) == 0 and all(len(x) < 2 for x in bs):
                return mkptr(b, scale(GF.word(bs[3:3 + (count - 1).bit_length()], 64), stride))
            raise Unsupported('index into a table of words ' + show(off, 9)[:1500])
        if off.op == 'c':
            k = sval(off)
            cs = o.cells
            if cs:
                bs = []
                miss = 0
                for i in range(n):
                    e = cs.get(k + i)
                    bs.append(e)
                    if e is None:
                        miss += 1
                if st.pc is not TRUE:
                    bs = [(given(e[0], st.pc), e[1]) if e is not None and e[0].op == 'ite' else e for e in bs]
                if miss == 0:
                    return assemble(bs)
                if miss < n:
                    parts = []
                    i = 0
                    while i < n:
                        j = i
                        if bs[i] is None:
                            while j < n and bs[j] is None:
                                j += 1
                            parts.append(sel(o.base, C(k + i, 64), j - i, st.pc))
                        else:
                            while j < n and bs[j] is not None:
                                j += 1
                            parts.append(assemble(bs[i:j]))
                        i = j
                    return cat(parts)
            return sel(o.base, C(k, 64), n, st.pc)
        if off.op == 'ite':
            return lift1(None, lambda z: self.read(st, obj, z, n), off) if False else self._lread(st, obj, off, n)
        return sel(o.array(), off, n, st.pc)

    def _lread(self, st, obj, off, n):
        r = None
        for c, l in leaves(off):
            v = self.read(st, obj, l, n)
            r = v if r is None else ITE(c, v, r)
        return r

    def store(self, st, p, v, ins=None):
        if self.on_access and not self.quiet and ins is not None:
            self.nulls(st, p, ins)
        ls = self.ptr_leaves(st, p)
        for c, o, off in ls:
            if self.on_access and not self.quiet:
                self.on_access('w', st, o, off, C(v.w // 8, 64), ins, c)
            if len(ls) == 1:
                self.write(st, o, off, v)
            else:
                for c2, off2 in (leaves(off) if off.op == 'ite' else [(TRUE, off)]):
                    cc = AND(c, c2)
                    old = self.read(st, o, off2, v.w // 8)
                    self.write(st, o, off2, ITE(cc, v, old))

    def write(self, st, obj, off, v):
        self.obj(st, obj)
        if off.op == 'ite':
            for c2, off2 in leaves(off):
                old = self.read(st, obj, off2, v.w // 8)
                self.write(st, obj, off2, ITE(c2, v, old))
            return
        o = st.w(obj)
        n = v.w // 8
        if off.op == 'c':
            k = sval(off)
            for i in range(n):
                o.cells[k + i] = (v, i)
        else:
            o.base = mk('astore', 0, o.array(), off, v)
            o.cells = {}

    def copy(self, st, dst, src, n, ins=None):
        """memcpy/memmove of n (term) bytes"""
        n = given(n, st.pc)
        if n.op == 'c' and n.a[0] == 0:
            return
        sl = self.ptr_leaves(st, src)
        dl = self.ptr_leaves(st, dst)
        if self.on_access and not self.quiet:
            self.nulls(st, src, ins)
            self.nulls(st, dst, ins)
            for c, o, off in sl:
                self.on_access('r', st, o, off, n, ins, c)
            for c, o, off in dl:
                self.on_access('w', st, o, off, n, ins, c)
        if n.op == 'c' and n.a[0] <= 8192:
            if n.a[0] == 0:
                return
            if not sl:
                return
            k = n.a[0]
            if len(sl) == 1 and len(dl) == 1 and sl[0][2].op == 'c' and dl[0][2].op == 'c':
                # byte-map copy keeps structure
                so, ko = self.obj(st, sl[0][1]), sval(sl[0][2])
                entries = []
                i = 0
                while i < k:
                    e = so.cells.get(ko + i)
                    if e is None:
                        j = i
                        while j < k and (ko + j) not in so.cells:
                            j += 1
                        t = sel(so.base, C(ko + i, 64), j - i, st.pc)
                        entries.extend((t, q) for q in range(j - i))
                        i = j
                    else:
                        entries.append(e)
                        i += 1
                self.obj(st, dl[0][1])
                do = st.w(dl[0][1])
                kd = sval(dl[0][2])
                for i, e in enumerate(entries):
                    do.cells[kd + i] = e
                return
            v = None
            for c, o, off in sl:
                x = self.read(st, o, off, k)
                v = x if v is None else ITE(c, x, v)
            for c, o, off in dl:
                if len(dl) == 1 and off.op != 'ite':
                    self.write(st, o, off, v)
                else:
                    for c2, off2 in (leaves(off) if off.op == 'ite' else [(TRUE, off)]):
                        old = self.read(st, o, off2, k)
                        self.write(st, o, off2, ITE(AND(c, c2), v, old))
            return
        if n.op == 'ite' and nleaves(n) <= 80:
            self._per_leaf(st, n, lambda s2, k: self.copy(s2, dst, src, k, ins))
            return
        A = None
        if not sl:
            return
        for c, o, off in sl:
            a = self.obj(st, o).array()
            if A is None:
                A, ao = a, off
            else:
                A, ao = ITE(c, a, A), ITE(c, off, ao)
        for c, o, off in dl:
            ob = self.obj(st, o)
            new = mkacopy(ob.array(), off, n, A, ao)
            if len(dl) > 1:
                new = ITE(c, new, ob.array())
            ob = st.w(o)
            ob.base = new
            ob.cells = {}

    def _per_leaf(self, st, n, f):
        sts = []
        pc0 = st.pc
        for c, k in leaves(n):
            s2 = st.fork()
            s2.pc = AND(pc0, c)
            if s2.pc is FALSE:
                continue
            f(s2, k)
            sts.append(s2)
        r, _ = self.merge([(s, {}) for s in sts])
        st.mem = r.mem
        st.tok = newtok()
        for o in list(st.mem):
            pass
        st.pc = pc0

    def fill(self, st, dst, b, n, ins=None):
        n = given(n, st.pc)
        if n.op == 'c' and n.a[0] == 0:
            return
        dl = self.ptr_leaves(st, dst)
        if self.on_access and not self.quiet:
            self.nulls(st, dst, ins)
            for c, o, off in dl:
                self.on_access('w', st, o, off, n, ins, c)
        if n.op == 'c' and n.a[0] <= 8192:
            k = n.a[0]
            v = C(b.a[0] * int('01' * k, 16), 8 * k) if b.op == 'c' else cat([b] * k)
            for c, o, off in dl:
                if len(dl) == 1:
                    self.write(st, o, off, v)
                else:
                    self.write(st, o, off, ITE(c, v, self.read(st, o, off, k)))
            return
        if n.op == 'ite' and nleaves(n) <= 80:
            self._per_leaf(st, n, lambda s2, k: self.fill(s2, dst, b, k, ins))
            return
        for c, o, off in dl:
            ob = self.obj(st, o)
            new = mkaset(ob.array(), off, n, b)
            if len(dl) > 1:
                new = ITE(c, new, ob.array())
            ob = st.w(o)
            ob.base = new
            ob.cells = {}

    # ------------------------------------------------------------ joins
    def merge(self, items):
        """[(state, phivals)] -> (state, phivals)"""
        if len(items) == 1:
            return items[0]
        s, pv = items[0]
        for s2, pv2 in items[1:]:
            s, pv = self._merge2(s, pv, s2, pv2)
        return s, pv

    def _merge2(self, s1, p1, s2, p2):
        u = OR(s1.pc, s2.pc)
        g = given(s1.pc, u)
        ng = given(s2.pc, u)
        if nleaves(g) > nleaves(ng):
            g = NOT(ng)
        r = State()
        r.pc = u
        pv = {}
        for k in p1:
            a, b = p1[k], p2[k]
            pv[k] = a if a is b else self._mval(g, a, b, s1.pc, s2.pc)
        m1, m2 = s1.mem, s2.mem
        mem = r.mem
        for o, x in m1.items():
            y = m2.get(o)
            if y is x:
                mem[o] = x
            elif y is None:
                if o[0] in ('g', 'pt'):
                    # touched only on one side
                    if o[0] == 'g':
                        y = self.global_obj(o[1])
                    else:
                        y = O(mk('asym', 0, o), None, -1)
                    mem[o] = self._mobj(g, x, y, r.tok, s1, s2) if (x.cells or x.base is not y.base) else x
                elif o[0] == 'heap':
                    mem[o] = x
                else:
                    mem[o] = x
            else:
                mem[o] = self._mobj(g, x, y, r.tok, s1, s2)
        for o, y in m2.items():
            if o not in m1:
                if o[0] == 'g':
                    x = self.global_obj(o[1])
                    mem[o] = self._mobj(g, x, y, r.tok, s1, s2) if (y.cells or x.base is not y.base) else y
                elif o[0] == 'pt':
                    x = O(mk('asym', 0, o), None, -1)
                    mem[o] = self._mobj(g, x, y, r.tok, s1, s2) if (y.cells or x.base is not y.base) else y
                else:
                    mem[o] = y
        return r, pv

    def _mval(self, g, a, b, pa, pb):
        if a.op == 'ite':
            a = given(a, pa)
        if b.op == 'ite':
            b = given(b, pb)
        if a.op == 'sym' and a.a[0] == ('poison',):
            return b
        if b.op == 'sym' and b.a[0] == ('poison',):
            return a
        return ITE(g, a, b)

    def _mobj(self, g, x, y, tok, s1, s2):
        o = O(None, x.size if x.size is not None else y.size, tok, x.origin)
        o.freed = x.freed if x.freed is y.freed else ITE(g, x.freed, y.freed)
        if x.base is y.base:
            o.base = x.base
        else:
            o.base = ITE(g, x.base, y.base)
        cx, cy = x.cells, y.cells
        if cx == cy:
            o.cells = dict(cx)
            return o
        offs = sorted(set(cx) | set(cy))
        i = 0
        n = len(offs)
        out = o.cells
        while i < n:
            k = offs[i]
            e1, e2 = cx.get(k), cy.get(k)
            if e1 == e2:
                out[k] = e1
                i += 1
                continue
            j = i + 1
            while j < n and offs[j] == k + (j - i):
                f1, f2 = cx.get(offs[j]), cy.get(offs[j])
                d = j - i
                if e1 is None:
                    if f1 is not None:
                        break
                elif f1 is None or f1[0] is not e1[0] or f1[1] != e1[1] + d:
                    break
                if e2 is None:
                    if f2 is not None:
                        break
                elif f2 is None or f2[0] is not e2[0] or f2[1] != e2[1] + d:
                    break
                j += 1
            L = j - i
            v1 = ext(e1[0], 8 * e1[1], 8 * L) if e1 is not None else sel(x.base, C(k, 64), L, s1.pc)
            v2 = ext(e2[0], 8 * e2[1], 8 * L) if e2 is not None else sel(y.base, C(k, 64), L, s2.pc)
            v = v1 if v1 is v2 else self._mval(g, v1, v2, s1.pc, s2.pc)
            for d in range(L):
                out[k + d] = (v, d)
            i = j
        return o

    # ------------------------------------------------------------ calls
    def call(self, name, args, st, ins=None):
        fn = self.mod.funcs.get(name)
        if fn is None:
            raise Unsupported('no body for ' + name)
        if self.depth > 60:
            raise Unsupported('call depth at ' + name)
        if sum(1 for x in self.stack if x == name) > 3:
            raise Unsupported('recursion ' + name)
        if self.bytefn and len(args) == 1 and args[0].op == 'ite' and args[0].w == 8 and self._scalar(fn):
            k = ('summary', name)
            if k not in self.gcache:
                x = sym(('bytearg', name), 8)
                self.gcache[k] = x, self.call(name, [x], State())[0]
            x, r = self.gcache[k]
            self.covered.add(name)
            return subst(r, {x: args[0]}), st
        self.depth += 1
        self.stack.append(name)
        try:
            return self._call(fn, args, st)
        finally:
            self.depth -= 1
            self.stack.pop()

    def _scalar(self, fn):
        """the function touches no memory and calls nothing"""
        k = ('scalar', fn.name)
        if k not in self.gcache:
            ok = True
            for b in fn.blocks:
                for i in b.ins:
                    if i.op in ('load', 'store', 'call', 'alloca', 'invoke', 'unreachable', 'getelementptr'):
                        ok = False
            self.gcache[k] = ok
        return self.gcache[k]

    def _call(self, fn, args, st):
        rpo, loops, order = structure(fn)
        self.covered.add(fn.name)
        act = Act(fn)
        for (t, nm, at), v in zip(fn.params, args):
            act.env[nm] = v
        s = st.fork()
        exits, backs = self.region(act, order, None, rpo[0], [(s, {})])
        if not act.rets:
            return None, None
        s, pv = self.merge([(s2, {'r': v}) if v is not None else (s2, {}) for s2, v in act.rets])
        for o in act.objs:
            if o in s.mem:
                if self.on_pop and not self.quiet:
                    self.on_pop(fn, o, s.mem[o], s)
                del s.mem[o]
        r = pv.get('r')
        if self.bytefn and r is not None and r.op != 'c' and self._scalar(fn):
            r = BF.canon(r)
        return r, s

    def region(self, act, order, loop, entry, incoming):
        pending = {entry: list(incoming)}
        exits = []
        backs = []
        inside = loop.blocks if loop else None
        header = loop.header if loop else None
        first = True

        def route(target, st, pv):
            if loop is not None and target == header:
                backs.append((st, pv))
            elif inside is None or target in inside:
                pending.setdefault(target, []).append((st, pv))
            else:
                exits.append((target, st, pv))
        for it in order:
            if isinstance(it, str):
                inc = pending.pop(it, None)
                if not inc:
                    continue
                st, pv = self.merge(inc)
                act.env.update(pv)
                self.block(act, act.fn.bmap[it], st, route, inside)
            else:
                inc = pending.pop(it.header, None)
                if not inc:
                    continue
                st, pv = self.merge(inc)
                for target, s2, p2 in self.run_loop(act, it, st, pv):
                    route(target, s2, p2)
        return exits, backs

    def edge(self, act, b, succ, st, route):
        pv = {}
        for i in act.fn.bmap[succ].ins:
            if i.op != 'phi':
                break
            for v, blk in i.x:
                if blk == b.name:
                    pv[i.res] = self.opnd(act, v, i.ty)
                    break
        route(succ, st, pv)

    def opnd(self, act, v, ty):
        if v[0] == 'v':
            return act.env[v[1]]
        return self.const(v, ty)

    def block(self, act, b, st, route, inside):
        env = act.env
        for ins in b.ins:
            op = ins.op
            if op == 'phi':
                continue
            self.nins += 1
            if self.nins > self.budget:
                raise Unsupported('analysis budget exceeded')
            if op == 'br':
                if len(ins.x) == 1:
                    self.edge(act, b, ins.x[0], st, route)
                    return
                c = self.opnd(act, ins.a[0], IR.INT(1))
                if self.bytefn and c.op != 'c':
                    c = BF.canon(BF.under(c, st.pc))
                t, f_ = ins.x
                if t == f_:
                    self.edge(act, b, t, st, route)
                    return
                if inside is not None and ((t not in inside) != (f_ not in inside)):
                    if c.op == 'c':
                        self._constexit = True
                    self._exittests = getattr(self, '_exittests', 0) + 1
                if c.op == 'c':
                    self.edge(act, b, t if c.a[0] else f_, st, route)
                    return
                pt = AND(st.pc, c)
                pf = AND(st.pc, NOT(c))
                if pt is FALSE and pf is FALSE:
                    return
                if pf is FALSE:
                    self.edge(act, b, t, st, route)
                    return
                if pt is FALSE:
                    self.edge(act, b, f_, st, route)
                    return
                s2 = st.fork()
                st.pc = pt
                s2.pc = pf
                self.edge(act, b, t, st, route)
                self.edge(act, b, f_, s2, route)
                return
            if op == 'switch':
                c = self.opnd(act, ins.a[0], ins.ty)
                d, cs = ins.x
                conds = {}
                rest = TRUE
                for k, l in cs:
                    q = eq(c, self.const(k, ins.ty))
                    conds[l] = OR(conds.get(l, FALSE), AND(rest, q))
                    rest = AND(rest, NOT(q))
                conds[d] = OR(conds.get(d, FALSE), rest)
                live = [(l, AND(st.pc, q)) for l, q in conds.items()]
                live = [(l, q) for l, q in live if q is not FALSE]
                if inside is not None and any(l not in inside for l in conds) and any(l in inside for l in conds):
                    if len(live) <= 1:
                        self._constexit = True
                    self._exittests = getattr(self, '_exittests', 0) + 1
                for n, (l, q) in enumerate(live):
                    s2 = st if n == len(live) - 1 else st.fork()
                    s2.pc = q
                    self.edge(act, b, l, s2, route)
                return
            if op == 'ret':
                v = self.opnd(act, ins.a[0], ins.ty) if ins.a else None
                if v is not None and v.op == 'ite':
                    v = given(v, st.pc)
                act.rets.append((st, v))
                return
            if op == 'unreachable':
                return
            if op == 'call':
                r = self.do_call(act, ins, st)
                if r is None:
                    return      # does not return
                st = r
                continue
            self.step(act, ins, st, env)
        raise Unsupported('fallthrough')

    def step(self, act, ins, st, env):
        op = ins.op
        if op == 'load':
            w = self.width(ins.ty)
            p = self.opnd(act, ins.a[0], IR.PTR)
            n = (w + 7) // 8
            v = self.load(st, p, n, ins)
            if w < 8 * n:
                v = trunc(v, w)
            env[ins.res] = v
        elif op == 'store':
            v = self.opnd(act, ins.a[0], ins.x)
            if v.w == 1:
                v = zext(v, 8)
            if ins.x.k in ('struct', 'arr', 'named') and v.w == 0:
                raise Unsupported('aggregate store')
            p = self.opnd(act, ins.a[1], IR.PTR)
            self.store(st, p, v, ins)
        elif op == 'getelementptr':
            base = self.opnd(act, ins.a[0], IR.PTR)
            s, idx = ins.x
            env[ins.res] = self.gep(base, s, [(t, self.opnd(act, v, t)) for t, v in idx])
        elif op == 'alloca':
            cnt = self.opnd(act, ins.a[0], IR.INT(64)) if ins.a[0][0] == 'v' else C(ins.a[0][1], 64)
            if cnt.w < 64:
                cnt = zext(cnt, 64)
            size = scale(cnt, self.mod.size(ins.x))
            o = self.new_obj(st, 'st', size, ins.res, origin=(act.fn.name, ins))
            act.objs.append(o)
            env[ins.res] = mkptr(o, C(0, 64))
        elif op == 'icmp':
            pred, t = ins.x
            a, b = self.opnd(act, ins.a[0], t), self.opnd(act, ins.a[1], t)
            env[ins.res] = self.icmp(pred, a, b, st)
        elif op in ARITH:
            a, b = self.opnd(act, ins.a[0], ins.ty), self.opnd(act, ins.a[1], ins.ty)
            env[ins.res] = ARITH[op](a, b)
        elif op == 'zext' and self.bits and ins.x == IR.INT(1):
            env[ins.res] = asbit(self.opnd(act, ins.a[0], ins.x), self.width(ins.ty))
        elif op == 'zext':
            env[ins.res] = zext(self.opnd(act, ins.a[0], ins.x), self.width(ins.ty))
        elif op == 'sext':
            env[ins.res] = sext(self.opnd(act, ins.a[0], ins.x), self.width(ins.ty))
        elif op == 'trunc':
            env[ins.res] = trunc(self.opnd(act, ins.a[0], ins.x), self.width(ins.ty))
        elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            env[ins.res] = self.opnd(act, ins.a[0], ins.x or ins.ty)
        elif op == 'select':
            c, a, b = (self.opnd(act, ins.a[0], IR.INT(1)), self.opnd(act, ins.a[1], ins.ty), self.opnd(act, ins.a[2], ins.ty))
            env[ins.res] = ITE(c, a, b)
        elif op == 'extractvalue':
            t, idx = ins.x
            v = self.opnd(act, ins.a[0], t)
            r = self.mod.resolve(t)
            off = self.mod.offsets(r)[idx[0]]
            ft = r.a[0][idx[0]]
            w = self.width(ft)
            x = ext(v, 8 * off, max(8, (w + 7) // 8 * 8))
            env[ins.res] = trunc(x, w) if w < x.w else x
        elif op == 'insertvalue':
            t, idx = ins.x
            v = self.opnd(act, ins.a[0], t)
            r = self.mod.resolve(t)
            off = self.mod.offsets(r)[idx[0]]
            x = self.opnd(act, ins.a[1], r.a[0][idx[0]])
            if x.w < 8:
                x = zext(x, 8)
            env[ins.res] = cat([ext(v, 0, 8 * off), x, ext(v, 8 * off + x.w, v.w - 8 * off - x.w)])
        elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            env[ins.res] = f(op, self.width(ins.ty), self.opnd(act, ins.a[0], ins.x))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            env[ins.res] = f(op, self.width(ins.ty), self.opnd(act, ins.a[0], ins.ty), self.opnd(act, ins.a[1], ins.ty))
        elif op == 'fcmp':
            pred, t = ins.x
            env[ins.res] = atom('fcmp', pred, self.opnd(act, ins.a[0], t), self.opnd(act, ins.a[1], t))
        else:
            raise Unsupported('op ' + op)

    def icmp(self, pred, a, b, st):
        if a.op == 'ite':
            a = given(a, st.pc)
        if b.op == 'ite':
            b = given(b, st.pc)
        if pred == 'eq':
            r = eq(a, b)
        elif pred == 'ne':
            r = NOT(eq(a, b))
        elif pred == 'ult':
            r = ult(a, b)
        elif pred == 'ugt':
            r = ult(b, a)
        elif pred == 'uge':
            r = NOT(ult(a, b))
        elif pred == 'ule':
            r = NOT(ult(b, a))
        elif pred == 'slt':
            r = slt(a, b)
        elif pred == 'sgt':
            r = slt(b, a)
        elif pred == 'sge':
            r = NOT(slt(a, b))
        elif pred == 'sle':
            r = NOT(slt(b, a))
        return r

    def do_call(self, act, ins, st):
        """returns new state or None if the call does not return"""
        cal = ins.x
        args = [self.opnd(act, v, t) if t is not IR.META else None for t, v in ins.a]
        if cal[0] == 'g':
            name = self.mod.aliases.get(cal[1], cal[1])
            return self.dispatch(act, name, args, ins, st)
        p = self.opnd(act, cal, IR.PTR)
        p = given(p, st.pc)
        ls = leaves(p, st.pc) if p.op == 'ite' else [(TRUE, p)]
        outs = []
        for c, q in ls:
            s2 = st if len(ls) == 1 else st.fork()
            if len(ls) > 1:
                s2.pc = AND(st.pc, c)
                if s2.pc is FALSE:
                    continue
            if q.op == 'ptr' and q.a[0][0] == 'g' and q.a[1] is C(0, 64):
                r = self.dispatch(act, q.a[0][1], args, ins, s2)
            else:
                t = self.devirt(self, q, args, ins, s2) if self.devirt else None
                if t is None:
                    raise Unsupported(f'indirect call {show(q)} at {self.mod.loc(ins)}')
                if callable(t):
                    v, r = t(self, args, s2, ins)
                    if v is not None:
                        act.env[ins.res] = v
                else:
                    r = self.dispatch(act, t, args, ins, s2)
            if r is not None:
                outs.append((r, {'r': act.env[ins.res]} if ins.res else {}))
        if not outs:
            return None
        s, pv = self.merge(outs)
        if ins.res:
            act.env[ins.res] = pv['r']
        return s

    def dispatch(self, act, name, args, ins, st):
        self.called.add(name)
        if self.on_call and not self.quiet:
            self.on_call(self, name, args, ins, st)
        m = self.models.get(name)
        if m is not None and not name.startswith('@_Z'):
            self._sigcheck(name)
        if m is None:
            b = BUILTIN.get(name)
            if b is None and name.startswith('@llvm.'):
                for k in LLVMI:
                    if name.startswith(k):
                        b = LLVMI[k]
            m = b
        if m is not None:
            r = m(self, args, st, ins)
            if r is NORETURN:
                return None
            if isinstance(r, tuple):
                v, st = r
            else:
                v = r
            if ins.res is not None:
                if v is None:
                    raise Unsupported('model gives no value: ' + name)
                act.env[ins.res] = v
            return st
        v, s = self.call(name, args, st, ins)
        if s is None:
            return None
        if ins.res is not None:
            act.env[ins.res] = v
        return s

    def _sigcheck(self, name):
        """a summary stands for a function of a known type only"""
        fn = self.mod.funcs.get(name)
        if fn is None:
            return
        s = '%r(%s)' % (fn.ret, ','.join(repr(t) for t, _, _ in fn.params))
        if os.environ.get('VERIF_SIGS'):
            with open(os.environ['VERIF_SIGS'], 'a') as fo:
                fo.write('%s %s\n' % (name, s))
        elif SIGS.get(name, s) != s:
            raise Unsupported('summarised function changed its type: %s %s' % (name, s))

    # ------------------------------------------------------------ loops
    def run_loop(self, act, L, st, pv):
        key = L.key
        st0 = st.fork()
        pv0 = dict(pv)
        save = (getattr(self, '_constexit', False), getattr(self, '_exittests', 0))
        exits = []
        cur = (st, pv)
        it = 0
        res = None
        while True:
            self._constexit = False
            self._exittests = 0
            s, p = cur
            act.env.update(p)
            ex, backs = self.region(act, L.order, L, L.header, [(s, p)])
            exits.extend(ex)
            if not backs:
                break
            if it == 0 and (not self._constexit and not self.bounded or self.unroll.get(act.fn.name) == 0):
                # no test decided: symbolic trip count
                res = self.summarise(act, L, st0, pv0, self.merge(backs))
                break
            cur = self.merge(backs)
            it += 1
            if it > self.unroll.get(act.fn.name, self.unroll.get(None, self.UNROLL)):
                act.env.update(pv0)
                _, backs = self.region(act, L.order, L, L.header, [(st0.fork(), dict(pv0))])
                res = self.summarise(act, L, st0, pv0, self.merge(backs) if backs else None)
                break
        self._constexit, self._exittests = save
        return exits if res is None else res

    def _diff(self, s0, s1):
        """locations changed from s0 to s1: ({(obj,off,n)}, {obj})"""
        cells = set()
        arrs = set()
        for o, y in s1.mem.items():
            x = s0.mem.get(o)
            if x is y:
                continue
            if x is None:
                if o[0] in ('g', 'pt'):
                    x = self.global_obj(o[1]) if o[0] == 'g' else O(mk('asym', 0, o), None, -1)
                else:
                    continue
            if x.base is not y.base:
                arrs.add(o)
                continue
            if x.freed is not y.freed:
                arrs.add(o)
            done = set()
            for k in sorted(y.cells):
                if k in done:
                    continue
                e = y.cells[k]
                xe = x.cells.get(k)
                if xe == e:
                    continue
                t, i = e
                # whole run of the stored term
                a = k - i
                n = t.w // 8
                whole = all(y.cells.get(a + q) == (t, q) for q in range(n))
                if not whole:
                    a, n = k, 1
                if xe is None and sel(x.base, C(a, 64), n) is (t if whole else ext(t, 8 * i, 8)):
                    done.update(range(a, a + n))
                    continue
                if xe is not None:
                    vx = self._peek(x, a, n)
                    vy = self._peek(y, a, n)
                    if vx is vy:
                        done.update(range(a, a + n))
                        continue
                cells.add((o, a, n))
                done.update(range(a, a + n))
        return cells, arrs

    def _peek(self, o, a, n):
        bs = []
        for q in range(n):
            e = o.cells.get(a + q)
            if e is None:
                e = (sel(o.base, C(a + q, 64), 1), 0)
            bs.append(e)
        return assemble(bs)

    def summarise(self, act, L, st0, pv0, first):
        """symbolic-trip-count loop; returns exits list"""
        d = self.ldepth
        self.ldepth += 1
        self.quiet += 1
        try:
            n = nvar(d)
            hdr = act.fn.bmap[L.header]
            phis = [i for i in hdr.ins if i.op == 'phi']
            guess = {}      # loc -> ('iv', init, delta) | ('mu', init, sym) ; loc = ('p',res)|('c',obj,off,n)|('a',obj)
            init = {}
            for i in phis:
                init[('p', i.res)] = pv0[i.res]

            def read0(loc):
                if loc[0] == 'c':
                    return self._peek(self.obj(st0, loc[1]), loc[2], loc[3])
                return self.obj(st0, loc[1]).array()
            mucount = [0]

            def mkmu(loc, ini, nxt=None):
                mucount[0] += 1
                k = mucount[0]
                if ini.w == 0 and ini.op != 'str':
                    return ('amu', ini, mk('asym', 0, ('amu', d, k)))
                hs = [x for x in leafset(ini)]
                nh = [x for x in leafset(nxt)] if nxt is not None else hs
                src = hs if hs[0].op == 'hctx' else nh
                if all(x.op == 'hctx' for x in src) and all(x.op == 'hctx' for x in hs):
                    kind = src[0].a[0]
                    ms = mk('str', 0, mk('smu', 0, (d, k)))
                    return ('hmu', ini, hctx(kind, ini.w // 8, ms), ms)
                return ('mu', ini, sym(('mu', d, k), ini.w))

            def guess_for(loc, ini, nxt):
                if ini.w > 1 and nxt is not None and ini.w <= 64:
                    dl = sub(nxt, ini)
                    if dl.op == 'ite':
                        dl = given(dl, first[0].pc)
                    if dl.op == 'c' and dl.a[0] != 0:
                        return ('iv', ini, dl)
                    if dl.op == 'c':
                        return ('iv', ini, dl)
                    if dl.op not in ('ite',) and ini.op != 'c':
                        pass
                return mkmu(loc, ini, nxt)
            if first is not None:
                fs, fp = first
                for i in phis:
                    guess[('p', i.res)] = guess_for(('p', i.res), pv0[i.res], fp[i.res])
                cells, arrs = self._diff(st0, fs)
                for (o, a, nn) in sorted(cells, key=_lk):
                    loc = ('c', o, a, nn)
                    x = read0(loc)
                    init[loc] = x
                    guess[loc] = guess_for(loc, x, self._peek(fs.mem[o], a, nn))
                for o in sorted(arrs, key=_lk):
                    if o[0] == 'st' or o[0] == 'heap' or o[0] in ('pt', 'g', 'arg'):
                        loc = ('a', o)
                        init[loc] = read0(loc)
                        guess[loc] = mkmu(loc, init[loc])
            else:
                for i in phis:
                    guess[('p', i.res)] = mkmu(('p', i.res), pv0[i.res])
            rounds = 0
            while True:
                rounds += 1
                if rounds > 14:
                    raise Unsupported('loop summary does not stabilise in ' + act.fn.name)
                hs = st0.fork()
                hpv = {}
                for loc, gss in guess.items():
                    if gss[0] == 'iv':
                        v = add(gss[1], mul(ext(n, 0, gss[1].w), gss[2])) if gss[1].w <= 64 else None
                        if gss[1].w < 64:
                            v = add(gss[1], scale(ext(n, 0, gss[1].w), gss[2].a[0]))
                        else:
                            v = add(gss[1], scale(n, gss[2].a[0]))
                    else:
                        v = gss[2]
                    if loc[0] == 'p':
                        hpv[loc[1]] = v
                    elif loc[0] == 'c':
                        self.obj(hs, loc[1])
                        o = hs.w(loc[1])
                        for q in range(loc[3]):
                            o.cells[loc[2] + q] = (v, q)
                    else:
                        self.obj(hs, loc[1])
                        o = hs.w(loc[1])
                        o.base = v
                        o.cells = {}
                hs_keep = hs.fork()
                act.env.update(hpv)
                ex, backs = self.region(act, L.order, L, L.header, [(hs, hpv)])
                if not backs:
                    # never iterates from a generic state
                    return ex
                bs, bp = self.merge(backs)
                changed = False
                nxt = {}
                for loc in list(guess):
                    g = guess[loc]
                    if loc[0] == 'p':
                        v = bp[loc[1]]
                    elif loc[0] == 'c':
                        o = bs.mem.get(loc[1])
                        v = self._peek(o, loc[2], loc[3])
                    else:
                        v = bs.mem[loc[1]].array()
                    v = given(v, bs.pc) if v.op == 'ite' else v
                    nxt[loc] = v
                    if g[0] == 'iv':
                        if g[1].w < 64:
                            want = add(g[1], scale(ext(add(n, C(1, 64)), 0, g[1].w), g[2].a[0]))
                        else:
                            want = add(g[1], scale(add(n, C(1, 64)), g[2].a[0]))
                        if v is not want and v is not given(want, bs.pc):
                            guess[loc] = mkmu(loc, g[1], v)
                            changed = True
                    else:
                        if v is g[2] and loc[0] != 'p':
                            del guess[loc]
                            changed = True
                cells, arrs = self._diff(hs_keep, bs)
                for o in sorted(arrs, key=_lk):
                    loc = ('a', o)
                    if loc not in guess:
                        for l2 in [l for l in guess if l[0] == 'c' and l[1] == o]:
                            del guess[l2]
                        init[loc] = read0(loc)
                        guess[loc] = mkmu(loc, init[loc])
                        changed = True
                for (o, a, nn) in sorted(cells, key=_lk):
                    loc = ('c', o, a, nn)
                    if loc in guess or ('a', o) in guess:
                        continue
                    # overlapping partial locations -> whole object
                    ov = [l for l in guess if l[0] == 'c' and l[1] == o and not (l[2] + l[3] <= a or a + nn <= l[2])]
                    if ov:
                        for l2 in [l for l in guess if l[0] == 'c' and l[1] == o]:
                            del guess[l2]
                        loc = ('a', o)
                        init[loc] = read0(loc)
                        guess[loc] = mkmu(loc, init[loc])
                    else:
                        x = read0(loc)
                        init[loc] = x
                        guess[loc] = mkmu(loc, x, self._peek(bs.mem[o], a, nn))
                    changed = True
                if not changed:
                    break
        finally:
            self.quiet -= 1
        try:
            # final pass with observers on (single generic iteration)
            if (self.on_access or self.on_call or self.on_pop) and not self.quiet:
                hs = hs_keep.fork()
                act.env.update(hpv)
                ex, backs = self.region(act, L.order, L, L.header, [(hs, hpv)])
                bs, bp = self.merge(backs)
            return self._close(act, L, st0, d, n, guess, nxt, ex, bs)
        finally:
            self.ldepth -= 1

    def _close(self, act, L, st0, d, n, guess, nxt, ex, bs):
        hp = st0.pc
        cont = given(bs.pc, hp)
        system = []
        for loc, g in guess.items():
            if g[0] in ('mu', 'amu'):
                system.append((g[2], g[1], nxt[loc]))
            elif g[0] == 'hmu':
                system.append((g[3], None, None))
        numsys = tuple((m, i, x) for m, i, x in system if i is not None)
        N = solve_trip(n, cont, numsys)
        mp = {}
        final = {}
        for loc, g in guess.items():
            if g[0] == 'iv':
                continue
            if g[0] == 'hmu':
                ms = g[3]
                nx = nxt[loc]
                final[loc] = self._close_stream(g, nx, n, N)
                mp[ms.a[0]] = ('SUBSTR', final[loc])
            elif g[0] == 'amu':
                final[loc] = self._close_array(g, nxt[loc], n, N, numsys)
                mp[g[2]] = final[loc]
            else:
                final[loc] = mkfold(n, N, g[2], numsys)
                mp[g[2]] = final[loc]
        real = {k: v for k, v in mp.items() if not isinstance(v, tuple)}
        real[n] = N
        for k, v in mp.items():
            if isinstance(v, tuple):
                real[k] = v[1]
        memo = {}
        S = lambda t: subst(t, real, memo)
        union = FALSE
        for _, s, _ in ex:
            union = OR(union, s.pc)
        out = []
        for target, s, pv in ex:
            r = State()
            if len(ex) == 1:
                r.pc = hp
            else:
                r.pc = AND(hp, S(given(s.pc, union)))
            if r.pc is FALSE:
                continue
            for o, ob in s.mem.items():
                x0 = st0.mem.get(o)
                if x0 is ob:
                    r.mem[o] = ob
                    continue
                if x0 is None and o[0] in ('st', 'heap'):
                    # created inside the iteration
                    pass
                k = ob.copy(r.tok)
                k.base = S(ob.base)
                k.freed = S(ob.freed)
                ck = {}
                for q, (t, i) in ob.cells.items():
                    ck[q] = (S(t), i)
                k.cells = ck
                r.mem[o] = k
            out.append((target, r, {q: S(v) for q, v in pv.items()}))
        self.summaries.append((act.fn.name, L.header, N))
        return out

    def _close_stream(self, g, nx, n, N):
        ms = g[3]
        smu = ms.a[0]
        # next: every leaf is hctx(kind, mu ++ X)

        def strip(h):
            if h.op != 'hctx' or h.a[1].op != 'str' or not h.a[1].a or h.a[1].a[0] is not smu:
                raise Unsupported('hash context not extended in loop')
            r = EMPTY
            for p in h.a[1].a[1:]:
                r = append(r, p)
            return r
        X = lift1(('strip', smu), strip, nx)
        if contains(X, smu):
            raise Unsupported('self-referential stream')
        rep = mkrep(n, N, X)
        # initial stream
        ini = lift1(('hs',), lambda h: h.a[1], g[1])
        return append(ini, rep)

    def _close_array(self, g, nx, n, N, system):
        mu = g[2]
        if nx.op == 'astore' and nx.a[0] is mu and not contains(nx.a[1], mu) and not contains(nx.a[2], mu) \
                and not any(contains(nx.a[2], m) or contains(nx.a[1], m) for m, _, _ in system):
            return afill(n, N, g[1], nx.a[1], nx.a[2])
        return mkfold(n, N, mu, system)


class _NR:
    pass


NORETURN = _NR()


def _shl(a, b):
    return shl(a, b)


ARITH = {'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem, 'and': band,
         'or': bor, 'xor': bxor, 'shl': shl, 'lshr': lshr, 'ashr': ashr}
BUILTIN = {}
LLVMI = {}


def builtin(*names):
    def d(fn):
        for n in names:
            BUILTIN[n] = fn
        return fn
    return d


def _m_memcpy(I, a, st, ins):
    I.copy(st, a[0], a[1], zext(a[2], 64), ins)
    return a[0]


def _m_memset(I, a, st, ins):
    I.fill(st, a[0], ext(a[1], 0, 8) if a[1].w > 8 else a[1], zext(a[2], 64), ins)
    return a[0]


LLVMI['@llvm.memcpy'] = LLVMI['@llvm.memmove'] = _m_memcpy
LLVMI['@llvm.memset'] = _m_memset
BUILTIN['@memcpy'] = BUILTIN['@memmove'] = _m_memcpy
BUILTIN['@memset'] = _m_memset
LLVMI['@llvm.lifetime'] = lambda I, a, st, ins: C(0, 8)
LLVMI['@llvm.stacksave'] = lambda I, a, st, ins: C(0, 64)
LLVMI['@llvm.stackrestore'] = lambda I, a, st, ins: C(0, 8)
LLVMI['@llvm.trap'] = lambda I, a, st, ins: NORETURN
LLVMI['@llvm.assume'] = lambda I, a, st, ins: C(0, 8)


@builtin('@__assert_fail', '@abort', '@exit')
def _m_assert(I, a, st, ins):
    return NORETURN


def _m_ovf(name):
    def m(I, a, st, ins):
        x, y = a[0], a[1]
        w = x.w
        if 'umul' in name:
            r = mul(x, y)
            hi = rng(x)[1] * rng(y)[1]
        else:
            r = add(x, y)
            hi = rng(x)[1] + rng(y)[1]
        ov = FALSE       # A-NOWRAP for allocation sizes
        z = zext(ov, 8)
        size = I.mod.size(ins.ty)
        return cat([r, z, C(0, 8 * size - w - 8)])
    return m


LLVMI['@llvm.umul.with.overflow'] = _m_ovf('umul')
LLVMI['@llvm.uadd.with.overflow'] = _m_ovf('uadd')


def _alloc(I, st, size, base, label, ins, zero=False):
    origin = (ins.fn.name if ins is not None else '?', ins)
    o = I.new_obj(st, 'heap', size, label, base, origin)
    if I.on_access and not I.quiet:
        I.on_access('a', st, o, None, size, ins, TRUE)
    p = mkptr(o, C(0, 64))
    if I.malloc_fails:
        ok = atom('ok', I.fresh())
        return ITE(ok, p, C(0, 64))
    return p


@builtin('@malloc', '@_Znam', '@_Znwm')
def _m_malloc(I, a, st, ins):
    return _alloc(I, st, a[0], None, 'malloc', ins)


@builtin('@calloc')
def _m_calloc(I, a, st, ins):
    return _alloc(I, st, mul(a[0], a[1]), AZERO, 'calloc', ins)


@builtin('@realloc')
def _m_realloc(I, a, st, ins):
    p = _alloc(I, st, a[1], None, 'realloc', ins)
    # contents preserved: model as full copy of the source object contents
    ls = I.ptr_leaves(st, a[0])
    q = [x for x in leafset(p) if x.op == 'ptr'][0]
    o = st.w(q.a[0])
    A = None
    cells = None
    for c, ob, off in ls:
        src = I.obj(st, ob)
        if len(ls) == 1 and off is C(0, 64):
            o.base = src.base
            o.cells = dict(src.cells)
            break
        A = src.array() if A is None else ITE(c, src.array(), A)
    if A is not None and len(ls) > 1:
        o.base = A
        o.cells = {}
    for c, ob, off in ls:
        if I.on_access and not I.quiet:
            I.on_access('f', st, ob, off, C(0, 64), ins, c)
        k = st.w(ob)
        k.freed = OR(k.freed, c)
    return p


@builtin('@free', '@_ZdaPv', '@_ZdlPv', '@_ZdlPvm', '@_ZdaPvm')
def _m_free(I, a, st, ins):
    for c, ob, off in I.ptr_leaves(st, a[0]):
        I.obj(st, ob)
        o = st.w(ob)
        if I.on_access and not I.quiet:
            I.on_access('f', st, ob, off, C(0, 64), ins, c)
        o.freed = OR(o.freed, c)
    return C(0, 8)


def _memlt(x, y):
    """lexicographic order of two unequal byte strings"""
    if x is y:
        return FALSE
    if x.op == 'ite' or y.op == 'ite':
        return lift2('memlt', _memlt, x, y)
    k = x.w // 8
    i, j = 0, k
    while i < k and ext(x, 8 * i, 8) is ext(y, 8 * i, 8):
        i += 1
    while j > i and ext(x, 8 * (j - 1), 8) is ext(y, 8 * (j - 1), 8):
        j -= 1
    if i >= j:
        return FALSE
    a, b = ext(x, 8 * i, 8), ext(y, 8 * i, 8)
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.a[0] < b.a[0] else FALSE
    x, y = ext(x, 8 * i, 8 * (j - i)), ext(y, 8 * i, 8 * (j - i))
    if x.op == 'ite' or y.op == 'ite':
        return lift2('memlt', _memlt, x, y)
    if x.w <= 64:
        x, y = cat([ext(x, x.w - 8 - q, 8) for q in range(0, x.w, 8)]), cat([ext(y, y.w - 8 - q, 8) for q in range(0, y.w, 8)])
    else:
        x, y = f('bswap', x.w, x), f('bswap', y.w, y)
    if y.op != 'c' and (x.op == 'c' or x.id > y.id):
        return NOT(ult(y, x))
    return ult(x, y)


@builtin('@memcmp')
def _m_memcmp(I, a, st, ins):
    n = a[2]
    if n.op == 'c' and n.a[0] <= 4096:
        k = n.a[0]
        x = I.load(st, a[0], k, ins) if k else C(0, 8)
        y = I.load(st, a[1], k, ins) if k else C(0, 8)
        if k == 0:
            return C(0, 32)
        e = eq(x, y)
        if k <= 8:
            e = TRUE
            for i in range(k):
                e = AND(e, eq(ext(x, 8 * i, 8), ext(y, 8 * i, 8)))
        if e is TRUE:
            return C(0, 32)
        # sign of the first difference (the magnitude is unspecified)
        return ITE(e, C(0, 32), ITE(_memlt(x, y), C(0xffffffff, 32), C(1, 32)))
    A = [seg(I.obj(st, o).array(), off, n) for c, o, off in I.ptr_leaves(st, a[0])]
    B = [seg(I.obj(st, o).array(), off, n) for c, o, off in I.ptr_leaves(st, a[1])]
    if len(A) == 1 and len(B) == 1:
        if A[0] is B[0]:
            return C(0, 32)
        r = f('memcmp_sign', 32, A[0], B[0])
        SYMRNG[r] = (1, 0xffffffff)
        return ITE(eq(A[0], B[0]), C(0, 32), r)
    raise Unsupported('memcmp')


def asbit(x, w):
    """0 or 1; x a condition"""
    for neg in (0, 1):
        y = NOT(x) if neg else x
        if y.op == 'ite' and y.a[1] is TRUE and y.a[2] is FALSE:
            at = y.a[0]
            v = k = None
            if at.op == 'eq' and C(0, at.a[0].w) in at.a:
                q = at.a[0] if at.a[1].op == 'c' else at.a[1]
                m = [z for z in q.a if z.op == 'c' and z.a[0] & (z.a[0] - 1) == 0] if q.op == 'and' and len(q.a) == 2 else []
                if m:
                    v, k = [z for z in q.a if z is not m[0]][0], m[0].a[0].bit_length() - 1
            elif at.op == 'ult' and at.a[1].op == 'c' and at.a[1].a[0] == 1 << (at.a[0].w - 1):
                v, k = at.a[0], at.a[0].w - 1
            if v is not None:
                b = GF.lowbits(lshr(v, C(k, v.w)), 1)
                b = zext(b, w) if b.w <= w else trunc(b, w)
                return b if neg else bxor(b, C(1, w))
    return zext(x, w)


def cstr_of(I, st, p):
    """constant C string contents or None"""
    ls = I.ptr_leaves(st, p)
    if len(ls) != 1:
        return None
    out = bytearray()
    _, o, off = ls[0]
    if off.op != 'c':
        return None
    for i in range(4096):
        b = I.read(st, o, add(off, C(i, 64)), 1)
        if b.op != 'c':
            return None
        if b.a[0] == 0:
            return bytes(out)
        out.append(b.a[0])
    return None


@builtin('@strlen')
def _m_strlen(I, a, st, ins):
    ls = I.ptr_leaves(st, a[0])
    r = None
    for c, o, off in ls:
        if o in I.fixlen:
            v = C(I.fixlen[o], 64)
            r = v if r is None else ITE(c, v, r)
            continue
        s = cstr_of(I, st, mkptr(o, off))
        if s is not None:
            v = C(len(s), 64)
        elif off.op == 'c' and _nonzero_run(I, st, o, off, c) is not None:
            v = C(_nonzero_run(I, st, o, off, c), 64)
        else:
            v = f('strlen', 64, I.obj(st, o).array(), off)
            SYMRNG[v] = (0, (1 << 62) - 1)
        r = v if r is None else ITE(c, v, r)
    if r is None:
        return f('strlen', 64, a[0])
    return r


def _nonzero_run(I, st, o, off, c):
    """number of bytes known to be nonzero before a byte known to be zero"""
    ob = I.obj(st, o)
    if not any(t.op == 'c' and (t.a[0] >> (8 * k)) & 255 == 0 for t, k in ob.cells.values()):
        return None
    pc = AND(st.pc, c)
    for i in range(1100):
        b = I._peek(ob, off.a[0] + i, 1)
        if b.op == 'c':
            if b.a[0] == 0:
                return i
            continue
        z = eq(b, C(0, 8))
        z = BF.under(z, pc) if z.op == 'ite' else z
        if z is TRUE:
            return i
        if z is not FALSE and given(z, pc) is not FALSE:
            return None
    return None


@builtin('@strchr')
def _m_strchr(I, a, st, ins):
    s = cstr_of(I, st, a[0])
    if s is not None and len(s) <= 254:
        # position by table lookup: 255 = not in the string
        c = ext(a[1], 0, 8)
        tb = bytearray(b'\xff' * 256)
        for k in range(len(s), -1, -1):
            tb[s[k] if k < len(s) else 0] = k
        i = sel(mk('abytes', 0, bytes(tb)), zext(c, 64), 1)
        no = eq(i, C(255, 8))
        if I.bytefn:
            no = BF.canon(BF.under(no, st.pc))
        return ITE(no, C(0, 64), add(a[0], zext(i, 64)))
    return f('strchr', 64, a[0], a[1])


@builtin('@strcmp', '@strncmp')
def _m_strcmp(I, a, st, ins):
    sa, sb = cstr_of(I, st, a[0]), cstr_of(I, st, a[1])
    if sa is not None and sb is not None and len(a) == 2:
        return C((sa > sb) - (sa < sb), 32)
    if sa is not None and sb is not None and a[2].op == 'c':
        sa, sb = sa[:a[2].a[0]], sb[:a[2].a[0]]
        return C((sa > sb) - (sa < sb), 32)
    def arr(p):
        ls = I.ptr_leaves(st, p)
        if len(ls) != 1:
            return p, C(0, 64)
        return I.obj(st, ls[0][1]).array(), ls[0][2]
    for lit, oth in ((sa, a[1]), (sb, a[0])):
        if lit is None or len(a) != 2:
            continue
        ls = I.ptr_leaves(st, oth)
        if len(ls) == 1 and ls[0][2].op == 'c':
            e = TRUE
            for i, ch in enumerate(lit + b'\0'):
                z = eq(I.read(st, ls[0][1], add(ls[0][2], C(i, 64)), 1), C(ch, 8))
                e = AND(e, BF.under(z, st.pc) if I.bytefn else given(z, st.pc))
                if e is FALSE:
                    break
            x, xo = arr(a[0])
            y, yo = arr(a[1])
            return ITE(e, C(0, 32), cat([C(1, 1), f('strcmp', 31, x, xo, y, yo)]))        # of unknown sign
    x, xo = arr(a[0])
    y, yo = arr(a[1])
    return f('strcmp' if len(a) == 2 else 'strncmp', 32, x, xo, y, yo, *a[2:])


@builtin('@strcpy')
def _m_strcpy(I, a, st, ins):
    ls = I.ptr_leaves(st, a[1])
    n = add(_m_strlen(I, [a[1]], st, ins), C(1, 64))
    I.copy(st, a[0], a[1], n, ins)
    return a[0]


@builtin('@rand')
def _m_rand(I, a, st, ins):
    return f('rand', 32, I.fresh())
