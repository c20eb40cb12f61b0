"""Front end: compile /repo's sources to LLVM IR with the project's own flags, link,
promote locals to SSA, and parse the textual IR into a small object model.

Nothing here executes project code; clang/opt are used as a parser + SSA builder.
"""
import os, re, subprocess, sys, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

CLANG = 'clang-18'
CLANGXX = 'clang++-18'
LINK = 'llvm-link-18'
OPT = 'opt-18'


class AnalysisBroken(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', '_size', '_align')

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self._size = None
        self._align = None

    def __repr__(self):
        return f'{self.k}{self.a if self.a else ""}'


VOID = Ty('void')
PTR = Ty('ptr')
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = Ty('i', n)
    return _ints[n]


LABEL = Ty('label')
META = Ty('metadata')
FLOAT = Ty('float')
DOUBLE = Ty('double')

TOK = re.compile(r'''\s*(?:
   (c"(?:[^"\\]|\\.)*")      # cstring
 | ("(?:[^"\\]|\\.)*")
 | ([%@!\#\$](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))   # local/global/meta/attr
 | (!)
 | (-?\d+\.\d+e[+-]?\d+ | 0x[0-9A-Fa-f]+)
 | (-?\d+)
 | ([A-Za-z_][\w.]*)
 | (\.\.\.)
 | (.)
)''', re.X)


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        t = m.group(m.lastindex) if m.lastindex else None
        if t is None or t.isspace() or t == '':
            continue
        if t == ';':
            break
        out.append(t)
    return out


ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone immarg signext zeroext returned
 inreg nest nofree noinline nounwind inbounds nuw nsw exact volatile dso_local local_unnamed_addr unnamed_addr
 tail notail musttail fastcc ccc internal private linkonce_odr linkonce weak weak_odr external extern_weak
 available_externally common appending hidden protected default thread_local constant global inrange disjoint nneg
 writable dead_on_unwind allocptr allocalign fast nnan ninf nsz arcp contract afn reassoc'''.split())


class P:
    """token stream parser"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise AnalysisBroken(f'IR parse: expected {x} got {y} in {" ".join(self.t)[:300]}')

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in ATTRS:
                self.i += 1
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'allocsize', 'elementtype',
                       'range', 'captures', 'byref', 'preallocated', 'inalloca', 'addrspace', 'alignstack', 'memory'):
                self.i += 1
                if self.peek() == '(':
                    self.skip_paren()
                elif p == 'align':
                    self.i += 1
            else:
                return

    def skip_paren(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def type(self):
        x = self.next()
        if x == 'void':
            t = VOID
        elif x == 'ptr':
            t = PTR
        elif re.fullmatch(r'i\d+', x):
            t = INT(int(x[1:]))
        elif x == 'label':
            t = LABEL
        elif x == 'metadata':
            t = META
        elif x == 'float':
            t = FLOAT
        elif x == 'double':
            t = DOUBLE
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', n, e)
        elif x == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            t = Ty('struct', tuple(fs), False)
        elif x == '<':
            if self.accept('{'):
                fs = []
                while not self.accept('}'):
                    fs.append(self.type())
                    self.accept(',')
                self.expect('>')
                t = Ty('struct', tuple(fs), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Ty('vec', n, e)
        elif x[0] == '%':
            t = Ty('named', x)
        elif x == 'opaque':
            t = Ty('opaque')
        else:
            raise AnalysisBroken(f'IR parse: type? {x} in {" ".join(self.t)[:300]}')
        while self.peek() == '(' and self.peek(-1) != 'x':
            # function type
            self.skip_paren()
            t = Ty('fn', t)
        return t

    def const(self, ty):
        """value of given type: returns operand tuple"""
        x = self.next()
        if x[0] == '%':
            return ('v', x)
        if x[0] == '@':
            return ('g', x)
        if x == 'null':
            return ('i', 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'true':
            return ('i', 1)
        if x == 'false':
            return ('i', 0)
        if x == 'zeroinitializer':
            return ('zero',)
        if re.fullmatch(r'-?\d+', x):
            return ('i', int(x))
        if x[:2] == 'c"':
            return ('bytes', cstr(x[2:-1]))
        if x == '[':
            es = []
            while not self.accept(']'):
                t = self.type()
                es.append((t, self.const(t)))
                self.accept(',')
            return ('agg', es)
        if x == '{':
            es = []
            while not self.accept('}'):
                t = self.type()
                es.append((t, self.const(t)))
                self.accept(',')
            return ('agg', es)
        if x == '<':
            if self.peek() == '{':
                r = self.const(ty)
                self.expect('>')
                return r
            es = []
            while not self.accept('>'):
                t = self.type()
                es.append((t, self.const(t)))
                self.accept(',')
            return ('agg', es)
        if x == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            st = self.type()
            self.expect(',')
            pt = self.type()
            base = self.const(pt)
            idx = []
            while self.accept(','):
                self.skip_attrs()
                t = self.type()
                idx.append((t, self.const(t)))
            self.expect(')')
            return ('cgep', st, base, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            v = self.const(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', x, t, v, t2)
        if x in ('add', 'sub', 'mul'):
            self.skip_attrs()
            self.expect('(')
            t = self.type()
            v = self.const(t)
            self.expect(',')
            t2 = self.type()
            v2 = self.const(t2)
            self.expect(')')
            return ('cbin', x, t, v, v2)
        if re.match(r'-?\d+\.|0x', x):
            return ('f', x)
        raise AnalysisBroken(f'IR parse: const? {x} in {" ".join(self.t)[:300]}')

    def tyval(self):
        t = self.type()
        self.skip_attrs()
        if t is META:
            # skip metadata operand
            d = 0
            while self.peek() is not None:
                p = self.peek()
                if d == 0 and p in (',', ')'):
                    break
                if p == '(':
                    d += 1
                if p == ')':
                    d -= 1
                self.i += 1
            return (t, ('meta',))
        return (t, self.const(t))


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'fn', 'block')

    def __repr__(self):
        return f'<{self.res} = {self.op} {self.x} {self.a}>'


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'idx')


class Func:
    def __init__(self, mod, name, ret, params, lines, dbg, attrs):
        self.mod = mod
        self.name = name
        self.ret = ret
        self.params = params
        self._lines = lines
        self._parsed = False
        self.dbg = dbg
        self.blocks = None
        self.attrs = attrs

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        blocks = {}
        order = []
        cur = None
        # unnamed entry: numbering not needed as we kept names; entry label explicit
        lines = []
        for ln in self._lines:
            if lines and lines[-1].lstrip().startswith('switch ') and ']' not in lines[-1]:
                lines[-1] += ' ' + ln.strip()
            else:
                lines.append(ln)
        for ln in lines:
            if not ln.strip():
                continue
            if not ln.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', ln)
                if m:
                    cur = Block()
                    cur.name = '%' + m.group(1)
                    cur.ins = []
                    blocks[cur.name] = cur
                    order.append(cur)
                    continue
            if cur is None:
                cur = Block()
                # unnamed entry block takes the number after params
                cur.name = '%' + str(sum(1 for p in self.params if re.fullmatch(r'%\d+', p[1])))
                cur.ins = []
                blocks[cur.name] = cur
                order.append(cur)
            ins = self._ins(ln)
            if ins is not None:
                ins.fn = self
                ins.block = cur
                cur.ins.append(ins)
        self.blocks = order
        self.bmap = blocks
        for i, b in enumerate(order):
            b.idx = i
            b.pred = []
        for b in order:
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = list(t.x)
            elif t.op == 'switch':
                b.succ = [t.x[0]] + [l for _, l in t.x[1]]
            else:
                b.succ = []
        for b in order:
            for s in dict.fromkeys(b.succ):
                blocks[s].pred.append(b.name)
        return self

    def _ins(self, ln):
        s = ln.strip()
        if s[0] == ']' or s.startswith(';'):
            return None
        if '@llvm.dbg.' in s and 'call' in s:
            return None
        dbg = None
        m = re.search(r', !dbg !(\d+)', s)
        if m:
            dbg = int(m.group(1))
            s = s[:m.start()]
        mm = s.find(', !')
        if mm >= 0 and '"' not in s[mm:]:
            s = s[:mm]
        p = P(self.mod, tokenize(s))
        ins = Ins()
        ins.dbg = dbg
        ins.res = None
        ins.x = None
        ins.a = ()
        ins.ty = VOID
        if p.peek(1) == '=':
            ins.res = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        ins.op = op
        if op == 'alloca':
            p.skip_attrs()
            ins.x = p.type()
            cnt = ('i', 1)
            if p.accept(','):
                if p.peek() != 'align':
                    t, cnt = p.tyval()
            ins.a = (cnt,)
            ins.ty = PTR
        elif op == 'load':
            p.skip_attrs()
            ins.ty = p.type()
            p.expect(',')
            _, v = p.tyval()
            ins.a = (v,)
        elif op == 'store':
            p.skip_attrs()
            t, v = p.tyval()
            p.expect(',')
            _, d = p.tyval()
            ins.a = (v, d)
            ins.x = t
        elif op == 'getelementptr':
            p.skip_attrs()
            st = p.type()
            p.expect(',')
            _, b = p.tyval()
            idx = []
            while p.accept(','):
                p.skip_attrs()
                idx.append(p.tyval())
            ins.x = (st, idx)
            ins.a = (b,)
            ins.ty = PTR
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                    'fadd', 'fsub', 'fmul', 'fdiv'):
            fl = []
            while p.peek() in ATTRS:
                fl.append(p.next())
            ins.ty = p.type()
            a = p.const(ins.ty)
            p.expect(',')
            b = p.const(ins.ty)
            ins.a = (a, b)
            ins.x = tuple(fl)
        elif op == 'icmp' or op == 'fcmp':
            while p.peek() in ATTRS:
                p.next()
            ins.x = p.next()
            t = p.type()
            a = p.const(t)
            p.expect(',')
            b = p.const(t)
            ins.a = (a, b)
            ins.ty = INT(1)
            ins.x = (ins.x, t)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                    'fpext', 'fptrunc'):
            p.skip_attrs()
            t, v = p.tyval()
            p.expect('to')
            ins.ty = p.type()
            ins.a = (v,)
            ins.x = t
        elif op == 'br':
            if p.accept('label'):
                ins.x = (p.next(),)
            else:
                p.expect('i1')
                c = p.const(INT(1))
                p.expect(',')
                p.expect('label')
                t = p.next()
                p.expect(',')
                p.expect('label')
                f = p.next()
                ins.a = (c,)
                ins.x = (t, f)
        elif op == 'switch':
            t, v = p.tyval()
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cs = []
            while not p.accept(']'):
                _, k = p.tyval()
                p.expect(',')
                p.expect('label')
                cs.append((k, p.next()))
            ins.a = (v,)
            ins.ty = t
            ins.x = (d, cs)
        elif op == 'ret':
            if p.peek() == 'void':
                ins.a = ()
            else:
                t, v = p.tyval()
                ins.ty = t
                ins.a = (v,)
        elif op == 'unreachable':
            pass
        elif op == 'phi':
            p.skip_attrs()
            ins.ty = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.const(ins.ty)
                p.expect(',')
                b = p.next()
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            ins.x = inc
        elif op == 'select':
            p.skip_attrs()
            tc, c = p.tyval()
            p.expect(',')
            t, a = p.tyval()
            p.expect(',')
            _, b = p.tyval()
            ins.ty = t
            ins.a = (c, a, b)
        elif op == 'call':
            p.skip_attrs()
            rt = p.type()
            if rt.k == 'fn':
                rt = rt.a[0]
            ins.ty = rt
            callee = p.const(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                if p.accept('...'):
                    continue
                args.append(p.tyval())
                p.accept(',')
            ins.x = callee
            ins.a = tuple(args)
        elif op == 'extractvalue':
            t, v = p.tyval()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            ins.a = (v,)
            ins.x = (t, idx)
            ins.ty = t.a[0][idx[0]] if t.k == 'struct' else None
        elif op == 'insertvalue':
            t, v = p.tyval()
            p.expect(',')
            t2, v2 = p.tyval()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            ins.a = (v, v2)
            ins.x = (t, idx)
            ins.ty = t
        elif op == 'freeze':
            t, v = p.tyval()
            ins.a = (v,)
            ins.ty = t
        else:
            raise AnalysisBroken(f'IR: unhandled op {op}: {ln}')
        return ins


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (ty, const or None, isconst)
        self.funcs = {}
        self.decls = {}
        self.meta = {}
        self.aliases = {}
        self._load(text)

    def _load(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if not ln:
                i += 1
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)', ln)
                if m:
                    p = P(self, tokenize(m.group(2)))
                    self.types[m.group(1)] = p.type()
            elif c == '@':
                m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', ln)
                rest = m.group(2)
                if ' alias ' in ' ' + rest.split('@')[0] + ' ':
                    tgt = re.findall(r'@(?:"[^"]*"|[-\w.$]+)', rest)[-1]
                    self.aliases[m.group(1)] = tgt
                else:
                    self.globals[m.group(1)] = rest
            elif c == '!':
                m = re.match(r'!(\d+) = (.*)', ln)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._define(ln, lines[i + 1:j])
                i = j
            elif ln.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', ln)
                self.decls[m.group(1)] = ln
            i += 1
        for a, t in self.aliases.items():
            if t in self.funcs:
                self.funcs[a] = self.funcs[t]
        self._gcache = {}

    def _define(self, ln, body):
        dbg = None
        m = re.search(r'!dbg !(\d+)', ln)
        if m:
            dbg = int(m.group(1))
        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', ln)
        name = m.group(1)
        head = ln[:m.start()]
        p = P(self, tokenize(head)[1:])
        p.skip_attrs()
        ret = p.type()
        # params
        p = P(self, tokenize(ln[m.end() - 1:]))
        p.expect('(')
        params = []
        k = 0
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            st = p.i
            p.skip_attrs()
            at = p.t[st:p.i]
            if p.peek() and p.peek()[0] == '%':
                nm = p.next()
            else:
                nm = '%' + str(k)
            k += 1
            params.append((t, nm, at))
            p.accept(',')
        self.funcs[name] = Func(self, name, ret, params, body, dbg, None)

    # -------------------------------------------------------------- layout
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a[0]]
        return t

    def align(self, t):
        if t._align is not None:
            return t._align
        r = self.resolve(t)
        if r.k == 'i':
            n = r.a[0]
            a = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        elif r.k in ('ptr', 'double'):
            a = 8
        elif r.k == 'float':
            a = 4
        elif r.k == 'arr':
            a = self.align(r.a[1])
        elif r.k == 'struct':
            a = 1 if r.a[1] else max([self.align(f) for f in r.a[0]] or [1])
        elif r.k == 'vec':
            a = self.size(r)
        else:
            raise AnalysisBroken('align ' + repr(r))
        t._align = a
        return a

    def size(self, t):
        if t._size is not None:
            return t._size
        r = self.resolve(t)
        if r.k == 'i':
            n = r.a[0]
            s = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        elif r.k in ('ptr', 'double'):
            s = 8
        elif r.k == 'float':
            s = 4
        elif r.k == 'arr':
            s = r.a[0] * self.size(r.a[1])
        elif r.k == 'vec':
            s = r.a[0] * self.size(r.a[1])
        elif r.k == 'struct':
            s = self.offsets(r)[-1]
        else:
            raise AnalysisBroken('size ' + repr(r))
        t._size = s
        return s

    def offsets(self, t):
        r = self.resolve(t)
        off = 0
        out = []
        for f in r.a[0]:
            if not r.a[1]:
                a = self.align(f)
                off = (off + a - 1) // a * a
            out.append(off)
            off += self.size(f)
        if not r.a[1]:
            a = self.align(r)
            off = (off + a - 1) // a * a
        out.append(off)
        return out

    # ------------------------------------------------------------- globals
    def never_written(self, g):
        """every use of global g in the module is a load (directly or through a getelementptr)"""
        c = self.__dict__.setdefault('_nw', {})
        if g in c:
            return c[g]
        pat = re.compile(re.escape(g) + r'(?![\w.$])')
        ok = True
        for fn in self.funcs.values():
            for ln in fn._lines:
                if g not in ln or not pat.search(ln):
                    continue
                m = re.match(r'\s*(%[-\w.$"]+) = (load|getelementptr)\b', ln)
                if not m:
                    ok = False
                    break
                if m.group(2) == 'getelementptr':
                    r = re.compile(re.escape(m.group(1)) + r'(?![\w.$])')
                    for l2 in fn._lines:
                        if l2 is not ln and r.search(l2) and not re.match(r'\s*%[-\w.$"]+ = load\b', l2):
                            ok = False
            if not ok:
                break
        c[g] = ok
        return ok

    def global_info(self, g):
        g = self.aliases.get(g, g)
        if g in self._gcache:
            return self._gcache[g]
        if g not in self.globals:
            r = None
        else:
            rest = self.globals[g]
            toks = tokenize(rest)
            p = P(self, toks)
            isconst = False
            ext = False
            while True:
                x = p.peek()
                if x in ATTRS or x in ('externally_initialized', 'comdat'):
                    if x == 'constant':
                        isconst = True
                    if x in ('external', 'extern_weak'):
                        ext = True
                    p.next()
                elif x in ('thread_local', 'addrspace'):
                    p.next()
                    if p.peek() == '(':
                        p.skip_paren()
                else:
                    break
            t = p.type()
            init = None
            if not ext and p.peek() is not None and p.peek() != ',':
                init = p.const(t)
            r = (t, init, isconst)
        self._gcache[g] = r
        return r

    # --------------------------------------------------------------- debug
    def loc(self, ins):
        """file:line of an instruction"""
        if ins is None or ins.dbg is None:
            return '?'
        seen = 0
        mid = ins.dbg
        s = self.meta.get(mid, '')
        m = re.search(r'line: (\d+)', s)
        line = m.group(1) if m else '?'
        m = re.search(r'scope: !(\d+)', s)
        f = self._file(int(m.group(1))) if m else '?'
        return f'{f}:{line}'

    def _file(self, mid):
        for _ in range(20):
            s = self.meta.get(mid, '')
            m = re.search(r'\bfile: !(\d+)', s)
            if m:
                t = self.meta.get(int(m.group(1)), '')
                m2 = re.search(r'filename: "([^"]*)"', t)
                return os.path.relpath(m2.group(1), '/repo') if m2 and m2.group(1).startswith('/repo') else (m2.group(1) if m2 else '?')
            m = re.search(r'scope: !(\d+)', s)
            if not m:
                return '?'
            mid = int(m.group(1))
        return '?'

    def func_loc(self, fn):
        if fn.dbg is None:
            return '?'
        s = self.meta.get(fn.dbg, '')
        m = re.search(r'line: (\d+)', s)
        return f'{self._file(fn.dbg)}:{m.group(1) if m else "?"}'

    # ----------------------------------------------------------- debug types
    def _index_types(self):
        if hasattr(self, '_comp'):
            return
        self._comp = {}
        for k, s in self.meta.items():
            if 'DICompositeType(' in s and ('DW_TAG_class_type' in s or 'DW_TAG_structure_type' in s) and 'elements:' in s and 'DIFlagFwdDecl' not in s:
                m = re.search(r'\bname: "([^"]*)"', s)
                if m:
                    self._comp.setdefault(m.group(1), k)
        # C typedef'd anonymous structs
        for k, s in self.meta.items():
            if 'DW_TAG_typedef' in s:
                m = re.search(r'\bname: "([^"]*)"', s)
                b = re.search(r'baseType: !(\d+)', s)
                if m and b:
                    t = self.meta.get(int(b.group(1)), '')
                    if 'DICompositeType(' in t and 'elements:' in t:
                        self._comp.setdefault(m.group(1), int(b.group(1)))

    def _strip(self, mid):
        while True:
            s = self.meta.get(mid, '')
            if 'DW_TAG_typedef' in s or 'DW_TAG_const_type' in s or 'DW_TAG_volatile' in s:
                m = re.search(r'baseType: !(\d+)', s)
                if not m:
                    return mid
                mid = int(m.group(1))
            elif 'DICompositeType(' in s and ('DIFlagFwdDecl' in s or 'elements:' not in s) and 'array_type' not in s and 'enumeration' not in s:
                m = re.search(r'\bname: "([^"]*)"', s)
                self._index_types()
                if m and m.group(1) in self._comp and self._comp[m.group(1)] != mid:
                    mid = self._comp[m.group(1)]
                else:
                    return mid
            else:
                return mid

    def _dsize(self, mid):
        mid = self._strip(mid)
        s = self.meta.get(mid, '')
        m = re.search(r'\bsize: (\d+)', s)
        return int(m.group(1)) // 8 if m else 0

    def _members(self, mid):
        """[(kind, name, offset, type id)]"""
        s = self.meta[mid]
        m = re.search(r'elements: !(\d+)', s)
        out = []
        if not m:
            return out
        for e in [int(x) for x in re.findall(r'!(\d+)', self.meta[int(m.group(1))])]:
            t = self.meta.get(e, '')
            inh = 'DW_TAG_inheritance' in t
            if inh or ('DW_TAG_member' in t and 'DIFlagStaticMember' not in t):
                off = re.search(r'offset: (\d+)', t)
                bt = int(re.search(r'baseType: !(\d+)', t).group(1))
                nm = re.search(r'\bname: "([^"]*)"', t)
                out.append(('base' if inh else 'field', nm.group(1) if nm else '', int(off.group(1)) // 8 if off else 0, self._strip(bt)))
        return out

    def class_id(self, cls):
        self._index_types()
        if cls not in self._comp:
            raise AnalysisBroken('no such class in the program: ' + cls)
        return self._comp[cls]

    def class_name(self, mid):
        m = re.search(r'\bname: "([^"]*)"', self.meta.get(mid, ''))
        return m.group(1) if m else None

    def fields(self, cls):
        """field name -> (offset, size) in bytes for a class, bases included (from debug info)"""
        out = {}

        def rec(mid, base):
            for kind, nm, off, bt in self._members(mid):
                if kind == 'base':
                    rec(bt, base + off)
                elif not nm.startswith('_vptr'):
                    out[nm] = (base + off, self._dsize(bt))
        rec(self.class_id(cls), 0)
        return out

    def type_at(self, mid, off):
        """innermost chain of (type id, offset within) at byte off of type mid; arrays unfolded modulo"""
        chain = []
        mid = self._strip(mid)
        while True:
            chain.append((mid, off))
            s = self.meta.get(mid, '')
            if 'DW_TAG_array_type' in s:
                bt = self._strip(int(re.search(r'baseType: !(\d+)', s).group(1)))
                sz = self._dsize(bt)
                if not sz:
                    return chain
                mid, off = bt, off % sz
                continue
            if 'DICompositeType(' in s:
                best = None
                for kind, nm, o, bt in self._members(mid):
                    if nm.startswith('_vptr'):
                        continue
                    if o <= off < o + max(1, self._dsize(bt)):
                        best = (bt, off - o)
                        break
                if best is None:
                    return chain
                mid, off = best
                continue
            return chain

    def pointee(self, mid):
        mid = self._strip(mid)
        s = self.meta.get(mid, '')
        if 'DW_TAG_pointer_type' in s or 'DW_TAG_reference_type' in s:
            m = re.search(r'baseType: !(\d+)', s)
            return self._strip(int(m.group(1))) if m else None
        return None

    def has_vptr(self, cls):
        return '@_ZTV' + str(len(cls)) + cls in self.globals

    def vslot(self, cls, slot):
        """function in vtable slot of class, or None"""
        info = self.global_info('@_ZTV' + str(len(cls)) + cls)
        if info is None or info[1] is None or info[1][0] != 'agg':
            return None
        arr = info[1][1][0][1]
        if arr[0] != 'agg':
            return None
        es = arr[1]
        if 2 + slot >= len(es):
            return None
        e = es[2 + slot][1]
        return e[1] if e[0] == 'g' else None


# ------------------------------------------------------------------ build
CXXFLAGS = ['-std=gnu++17', '-DUSE_STDONLY', '-DUBTC_TEST', '-fno-access-control']
CFLAGS = ['-std=gnu11']
COMMON = ['-O0', '-g', '-fstandalone-debug', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-discard-value-names',
          '-fno-threadsafe-statics', '-w', '-S', '-emit-llvm']


def repo_sources(repo='/repo'):
    src = os.path.join(repo, 'src')
    cc, cxx = [], []
    for d, dirs, fs in os.walk(src):
        dirs.sort()
        for f in sorted(fs):
            if f.endswith('.cpp'):
                cxx.append(os.path.join(d, f))
            elif f.endswith('.c'):
                cc.append(os.path.join(d, f))
    return cc, cxx


def build(repo='/repo', extra=(), passes='function(mem2reg,loop-simplify,lcssa)', only=None, defs=()):
    """returns Module for the whole library (plus extra model sources)"""
    cc, cxx = repo_sources(repo)
    if len(cc) < 10 or len(cxx) < 8:
        raise AnalysisBroken(f'source set shrank: {len(cc)} C, {len(cxx)} C++ units')
    cxx = cxx + [e for e in extra if e.endswith('.cpp')]
    cc = cc + [e for e in extra if e.endswith('.c')]
    if only:
        cc = [c for c in cc if os.path.basename(c) in only]
        cxx = [c for c in cxx if os.path.basename(c) in only]
    tmp = tempfile.mkdtemp(prefix='sa_')
    try:
        jobs = []
        outs = []
        for k, f in enumerate(cc + cxx):
            o = os.path.join(tmp, f'{k}_{os.path.basename(f)}.ll')
            outs.append(o)
            if f.endswith('.c'):
                cmd = [CLANG] + CFLAGS + COMMON + ['-I' + os.path.join(repo, 'src')] + list(defs) + [f, '-o', o]
            else:
                cmd = [CLANGXX] + CXXFLAGS + COMMON + ['-I' + os.path.join(repo, 'src')] + list(defs) + [f, '-o', o]
            jobs.append(cmd)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs))
        for c, r in zip(jobs, rs):
            if r.returncode:
                raise AnalysisBroken('does not compile: ' + c[-3] + '\n' + r.stderr[:2000])
        al = os.path.join(tmp, 'all.ll')
        r = subprocess.run([LINK, '-S'] + outs + ['-o', al], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('link: ' + r.stderr[:2000])
        ml = os.path.join(tmp, 'm.ll')
        r = subprocess.run([OPT, '-S', '-passes=' + passes, al, '-o', ml], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('opt: ' + r.stderr[:2000])
        text = open(ml).read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = Module(text)
    m.units = [os.path.relpath(f, repo) for f in cc + cxx]
    return m


def demangle(names):
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(n.lstrip('@').strip('"') for n in names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


if __name__ == '__main__':
    import time
    t = time.time()
    m = build()
    print('build', time.time() - t)
    t = time.time()
    n = 0
    for f in list(m.funcs.values()):
        f.parse()
        n += sum(len(b.ins) for b in f.blocks)
    print(len(m.funcs), n, time.time() - t)
    for g in m.globals:
        m.global_info(g)
    print(m.fields('TxIn'), m.fields('HDPrivateKey'), m.fields('bignum256'))
