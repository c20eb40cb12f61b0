"""Check driver: obligations, verdicts, evidence, known findings."""
import os, re, sys, json, time, signal, traceback, hashlib, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.environ.get('VERIF_OUT') or os.path.join(VERIF, 'evidence')
sys.path.insert(0, HERE)
import ir as IR
from ir import AnalysisBroken
from terms import *
from streams import *
from interp import *
import lib as LIB
import sem as SEM
from lib import Lib, run, data_of
from cmp import compare, Cmp
import cmp as CMP

REPO = os.environ.get('VERIF_REPO', '/repo')
ALL = []           # obligations


class Obl:
    def __init__(self, prop, name, fn, spec, rule, limit):
        self.prop, self.name, self.fn, self.spec, self.rule, self.limit = prop, name, fn, spec, rule, limit


def obligation(prop, name, spec=None, rule='', limit=200):
    def d(fn):
        ALL.append(Obl(prop, name, fn, spec, rule, limit))
        return fn
    return d


class Ctx:
    """handed to an obligation; collects verdicts"""

    def __init__(self, L, tier):
        self.L = L
        self.tier = tier
        self.res = []          # (status, item, detail, loc)
        self.functions = set()

    # verdicts
    def ok(self, item, detail=''):
        self.res.append(('ok', item, detail, ''))

    def bad(self, item, detail, loc=''):
        self.res.append(('violation', item, detail, loc))

    def unknown(self, item, detail, loc=''):
        self.res.append(('undecided', item, detail, loc))

    def expect(self, cond, item, detail='', loc=''):
        self.ok(item) if cond else self.bad(item, detail, loc)

    def variant(self, *flags):
        """the same program built with further compiler flags"""
        return Lib(extra=[os.path.join(VERIF, 'spec', s_) for s_ in (self.spec or '').split()], repo=REPO, defs=['-I' + os.path.join(VERIF, 'spec')] + list(flags))

    # value-graph equivalence of an entry point with its reference
    def sig(self, sig):
        return sig if sig.startswith('@') else self.L.fn(sig)

    def loc(self, sig):
        try:
            m = self.L.mod
            fn = m.funcs[self.sig(sig)]
            at = m.func_loc(fn)
            if 'spec/' not in at:
                return at
            # a wrapper: the functions of the repository it calls, possibly through other wrappers
            out = []
            seen, work = {fn.name}, [fn]
            while work:
                g = work.pop(0)
                for ln in g._lines:
                    for n in re.findall(r'(?:call|invoke) [^@]*(@[\w.]+)\(', ln):
                        n = m.aliases.get(n, n)
                        if n in seen or n not in m.funcs or re.match(r'(@_ZNK?\d+\w*?(C[12]|D[012])E)', n):
                            continue
                        seen.add(n)
                        a = m.func_loc(m.funcs[n])
                        if 'spec/' in a:
                            work.append(m.funcs[n])
                        elif 'src/' in a and 'memzero' not in a and a not in out:
                            out.append(a)
            return ', '.join(out[:3]) or at
        except Exception:
            return sig

    item_limit = 30
    monitor = None

    def equiv(self, sig, spec, args, obs, pc=TRUE, models=None, item=None, setup=None, sargs=None, setup2=None,
              smodels=None, **kw):
        """one comparison; what goes wrong in it leaves the others alone"""
        item = item or (sig.split('(')[0] if not sig.startswith('@') else sig[1:])
        left = self.deadline - time.time()
        self.current = item
        CMP.REAL = kw.pop('real', False)
        signal.setitimer(signal.ITIMER_REAL, max(0.01, min(left, self.item_limit if self.tier == 'quick' else 3 * self.item_limit)))
        try:
            return self._equiv(sig, spec, args, obs, pc, models, item, setup, sargs, setup2, smodels, **kw)
        except MemoryFault:
            pass
        except TimeUp:
            if self.monitor and self.monitor.report(item):
                return
            if self.deadline - time.time() < 0.5:
                raise
            self.unknown(item, 'analysis time limit', self.loc(sig))
        except Unsupported as e:
            if self.monitor and self.monitor.report(item):
                return
            self.unknown(item, 'outside the analysed fragment: ' + str(e)[:300], self.loc(sig))
        except (RecursionError, MemoryError) as e:
            self.unknown(item, type(e).__name__, self.loc(sig))
        finally:
            self.monitor = None
            signal.setitimer(signal.ITIMER_REAL, max(0.01, self.deadline - time.time()))

    def _equiv(self, sig, spec, args, obs, pc, models, item, setup, sargs, setup2, smodels, leaks=False, **kw):
        sides = []
        called = []
        if pc is FALSE:
            raise Unsupported('vacuous case ' + item)
        for s, a, su, mo in ((sig, args, setup, models), ('@' + spec, sargs or args, setup2 or setup, smodels or models)):
            st = State()
            st.pc = pc
            I = self.L.interp(mo, **kw)
            if su:
                a = su(I, st, list(a))
            mon = None
            if kw.get('bounded') and not s.startswith('@spec_') and MEMORY:
                mon = self.monitor = Memory(self, I, pc)
            v, s2 = I.call(self.sig(s), a, st)
            called.append(I.called)
            if mon:
                mon.finish(s2, item, leaks)
                self.monitor = None
                I.on_access = None
            if s2 is None:
                raise Unsupported(s + ' never returns')
            sides.append(obs(v, s2, I, a))
            if not s.startswith('@spec_'):
                self.functions |= I.covered
        self.apart = self.inlined(self.sig(sig), called[1] - called[0], set(models or ()) | set(self.L.models))
        for (lab, x), (_, y) in zip(*sides):
            self.same(item + ' / ' + lab, x, y, pc, self.loc(sig))
        self.apart = None
        return sides

    apart = None

    def inlined(self, fn, names, models):
        """a summarised helper the reference uses and the code has done away with: its value is then no point of comparison"""
        for n in sorted(names & models):
            if n in VALUED or re.match(r'@(_ZNSt|_ZNKSt|_ZSt|memzero|malloc|free|calloc|realloc|mem|str|_Zn|_Zd|spec_)', n) or re.search(r'sha|Sha|SHA|ripemd|hash|Hash|hmac|HMAC', n):
                continue
            if n not in self.reach(fn):
                return n
        return None

    def reach(self, fn):
        m = self.L.mod
        memo = self.L.__dict__.setdefault('_reach', {})
        if fn not in memo:
            seen, work, wide = {fn}, [fn], False
            while work:
                g = m.funcs.get(work.pop())
                for ln in (g._lines if g else ()):
                    new = [m.aliases.get(x, x) for x in re.findall(r'@[\w.]+', ln)]
                    if not wide and re.search(r'\b(call|invoke)\b[^@]* %[\w.]+\(', ln):
                        wide = True
                        new += [x for x, h in m.funcs.items() if 'spec/' not in m.func_loc(h) and not x.startswith('@spec_')]
                    for x in new:
                        if x not in seen:
                            seen.add(x)
                            work.append(x)
            memo[fn] = seen
        return memo[fn]

    def same(self, item, x, y, pc=TRUE, loc=''):
        x, y = given(x, pc), given(y, pc)
        r = compare(x, y, pc, 120 if self.tier == 'quick' else 600)
        if r[0] == 'equal':
            self.ok(item, '%d leaves' % r[1])
        elif r[0] == 'different' and self.apart:
            self.unknown(item, 'the code no longer uses %s, which the reference is built on' % self.apart, loc)
        elif r[0] == 'different':
            e, vx, vy = r[1]
            p, a, b = (r[2] or [(pc, x, y)])[0]
            self.bad(item, 'computed value differs from the reference\n   under   %s\n   code    %s\n   expects %s\n   e.g.    %s  vs  %s' % (
                show(p, 6)[:900], show(a, 7)[:900], show(b, 7)[:900], _sv(vx), _sv(vy)), loc)
        else:
            p, a, b = (r[1] or [(pc, x, y)])[0]
            self.unknown(item, 'value graphs not proved equal: %s  vs  %s  under %s' % (show(a, 5)[:300], show(b, 5)[:300], show(p, 12)[:1500] if os.environ.get('VERIF_DBG') else ''), loc)


# summaries with a meaning of their own in valuations
VALUED = {'@' + re.sub(r'\.\d+$', '', re.sub(r'^p_', '', k)) for k in SEM.TAB}
MEMORY = not os.environ.get('VERIF_NOMEM')


class MemoryFault(Exception):
    pass


class Memory:
    """accesses of the repository's functions: inside their object, not null, not after free; heap given back"""
    WORD = {'r': 'read', 'w': 'write', 'f': 'free', 'n': 'use of a null pointer'}

    def __init__(self, c, I, pc):
        self.c, self.I, self.pc = c, I, pc
        self.cand = {}
        self.n = 0
        self.heap = []
        self.known = {}
        I.on_access = self.event

    def ours(self):
        st = self.I.stack
        if not st:
            return None
        n = st[-1]
        if n not in self.known:
            m = self.c.L.mod
            at = m.func_loc(m.funcs[n]) if n in m.funcs else ''
            self.known[n] = at if 'src/' in at and 'spec/' not in at else None
        return self.known[n]

    def event(self, kind, st, o, off, n, ins, c):
        if kind == 'a':
            self.heap.append((o, st.pc, list(self.I.stack), ins))
            return
        at = self.ours()
        if at is None:
            return
        self.n += 1
        what = None
        cond = c
        if kind == 'n':
            what = 'null pointer used'
        else:
            ob = self.I.obj(st, o)
            if ob.freed is not FALSE:
                g = AND(c, st.pc, ob.freed)
                if g is not FALSE:
                    self.add(g, 'freed again' if kind == 'f' else 'used after free', at, ins)
            size = ob.size
            if kind == 'f':
                if o[0] in ('st', 'g') or (off.op == 'c' and off.a[0] != 0):
                    what = 'free of something that is not a heap block'
            elif size is not None and n is not None:
                size = size if not isinstance(size, int) else C(size, 64)
                size, off, n = given(size, st.pc), given(off, st.pc), given(n, st.pc)
                if size.op == 'c' and n.op == 'c':
                    for c2, k in leaves(off):
                        if k.op == 'c' and n.a[0] and (sval(k) < 0 or sval(k) + n.a[0] > size.a[0]):
                            self.add(AND(c, st.pc, c2), '%s of %d bytes at offset %d of an object of %d bytes' % (self.WORD[kind], n.a[0], sval(k), size.a[0]), at, ins)
        if what:
            self.add(AND(c, st.pc), what, at, ins)

    def add(self, g, what, at, ins):
        if g is FALSE:
            return
        ln = self.c.L.mod.loc(ins) if ins is not None else ''
        k = (what, ln or at)
        self.cand[k] = OR(self.cand.get(k, FALSE), g)
        if given(g, self.pc) is TRUE or g is self.pc:
            if self.report(self.c.current):
                raise MemoryFault()

    def report(self, item):
        from cmp import refute
        bad = False
        for (what, ln), g in self.cand.items():
            try:
                r = refute(g, FALSE, self.pc, 60, limit=4)
            except Exception:
                r = None
            if r is not None:
                self.c.bad(item + ' / memory', what, ln)
                bad = True
                break
        return bad

    def finish(self, s2, item, leaks):
        if leaks and s2 is not None:
            for o, pc, stack, ins in self.heap:
                ob = s2.mem.get(o)
                if ob is None:
                    continue
                g = AND(pc, NOT(ob.freed))
                if g is not FALSE:
                    k = ('memory allocated here is never given back', self.c.L.mod.loc(ins) if ins is not None else '')
                    self.cand[k] = OR(self.cand.get(k, FALSE), g)
        if not self.report(item):
            self.c.ok(item + ' / memory', '%d accesses' % self.n)
        else:
            raise MemoryFault()


def limit(I, st, p, n):
    """the object behind p has n bytes"""
    o = aspt(p).a[0]
    I.obj(st, o)
    st.w(o).size = C(n, 64)


def _sv(v):
    if isinstance(v, bytes):
        return v.hex()[:200]
    return hex(v)[:200] if isinstance(v, int) else repr(v)[:200]


# ---------------------------------------------------------------- observables
def RET(v, s, I, a):
    return [('result', v)]


def MEM(k, n):
    """n bytes behind argument k"""
    def o(v, s, I, a):
        return [('bytes written through argument %d' % k, I.load(s, a[k], n))]
    return o


def BOTH(*os_):
    def o(v, s, I, a):
        r = []
        for x in os_:
            r += x(v, s, I, a)
        return r
    return o


class TimeUp(Exception):
    pass


def _alarm(*_):
    raise TimeUp()


def _one(o, L, tier, conn):
    sys.setrecursionlimit(60000)
    c = Ctx(L, tier)
    c.spec = o.spec
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    lim = o.limit if tier == 'quick' else o.limit * 3
    c.deadline = t + lim
    signal.setitimer(signal.ITIMER_REAL, lim)
    err = None
    try:
        o.fn(c)
    except TimeUp:
        err = ('undecided', 'analysis time limit')
    except Unsupported as e:
        err = ('undecided', 'outside the analysed fragment: ' + str(e)[:300])
    except AnalysisBroken as e:
        err = ('broken', str(e)[:300])
    except (RecursionError, MemoryError) as e:
        err = ('undecided', type(e).__name__)
    except Exception as e:
        err = ('undecided', 'analysis failure: %s: %s @%s' % (type(e).__name__, str(e)[:200], traceback.format_exc().strip().splitlines()[-3:][0].strip()[:160]))
    signal.setitimer(signal.ITIMER_REAL, 0)
    if err:
        c.res.append((err[0], '*', err[1], ''))
    conn.send((c.res, sorted(c.functions), time.time() - t))
    conn.close()


USES = {}       # property -> [(other property, regex)]: obligations of the layer below that it rests on


def run_property(prop, tier, seed, out=None, verbose=False):
    t0 = time.time()
    only = os.environ.get('VERIF_ONLY')          # development: a part of the obligations
    obs = [o for o in ALL if o.prop == prop] + [o for u, rx in USES.get(prop, ()) for o in ALL if o.prop == u and re.search(rx, o.name)]
    obs = [o for o in obs if not only or re.search(only, o.name)]
    if not obs:
        print('no obligations for', prop)
        return 2
    libs = {}
    results = {}
    broken = []
    for sp in sorted({o.spec for o in obs}, key=str):
        try:
            extra = [os.path.join(VERIF, 'spec', s) for s in (sp or '').split()]
            libs[sp] = Lib(extra=extra, repo=REPO, defs=['-I' + os.path.join(VERIF, 'spec')])
        except AnalysisBroken as e:
            broken.append('%s: %s' % (sp, str(e)[:400]))
    procs = []
    pend = [o for o in obs if o.spec in libs]
    run_ = []
    ncpu = int(os.environ.get('VERIF_JOBS', '8'))
    while pend or run_:
        if pend and time.time() - t0 > (600 if tier == 'quick' else 3600):
            for o in pend:
                results[o] = ([('undecided', '*', 'analysis time limit of the whole check', '')], [], 0)
            pend = []
        while pend and len(run_) < ncpu:
            o = pend.pop(0)
            a, b = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=_one, args=(o, libs[o.spec], tier, b))
            p.start()
            b.close()
            run_.append((o, p, a, time.time()))
        for e in list(run_):
            o, p, a, ts = e
            lim = (o.limit if tier == 'quick' else 3 * o.limit) + 30
            if a.poll(0.02):
                try:
                    results[o] = a.recv()
                except EOFError:
                    results[o] = ([('undecided', '*', 'analysis process died', '')], [], time.time() - ts)
                p.join()
                run_.remove(e)
            elif time.time() - ts > lim or time.time() - t0 > (600 if tier == 'quick' else 3600):
                p.kill()
                p.join()
                results[o] = ([('undecided', '*', 'analysis time limit', '')], [], time.time() - ts)
                run_.remove(e)
    known = load_known()
    total = disch = 0
    viol, und, kf = [], [], []
    funcs = set()
    items = []
    groups = {}
    for o in obs:
        if o not in results:
            continue
        res, fs, dt = results[o]
        funcs |= set(fs)
        for st, item, det, loc in res:
            key = o.name + ' :: ' + item
            if st == 'broken':
                broken.append(key + ': ' + det)
                continue
            total += 1
            g = groups.get(o.name)
            if g is None:
                g = groups[o.name] = {'obligation': o.name, 'rule': o.rule, 's': round(dt, 2), 'count': {}, 'cases': []}
                items.append(g)
            g['count'][st] = g['count'].get(st, 0) + 1
            if len(g['cases']) < 60:
                g['cases'].append(item)
            if st == 'ok':
                disch += 1
            elif st == 'undecided':
                und.append((key, det))
            else:
                k = [x for x in known if x[0] == prop and x[1] == key]
                if k:
                    kf.append((key, k[0][2]))
                else:
                    viol.append((key, det, loc))
    lib0 = next(iter(libs.values()), None)
    names = sorted(lib0.dem.get(f_, f_) for f_ in funcs) if lib0 else []
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL.get(prop, 'proof'),
        'coverage': {
            'obligations': total, 'discharged': disch,
            'checker_cmd': 'python3 /verif/run.py %s %s' % (prop, tier),
            'trusted_base': ['clang 18 front end (IR at -O0 with mem2reg)', '/verif/sa value-graph engine', 'reference functions in /verif/spec', 'summaries of the primitive layer'],
            'explanation': RULES.get(prop, ''),
            'functions_analysed': [n for n in names if not n.startswith('spec_')],
            'undecided': [list(x) for x in und[:200]],
            'known_findings': [x[0] for x in kf],
            'items': items,
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, prop + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1)
    for key, det in und:
        print('undecided: %s: %s' % (key, det))
    for key, txt in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    if broken:
        for b in broken:
            print('analysis broken:', b)
    if viol:
        rp = os.path.join(OUT, 'replay-%s.txt' % prop)
        with open(rp, 'w') as fo:
            for key, det, loc in viol:
                fo.write('%s\n  at %s\n  %s\n\n' % (key, loc, det))
        for key, det, loc in viol:
            print('violation at %s: %s: %s' % (loc, key, det))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if broken and not disch and not all(_moved(b) for b in broken):
        return 2
    print('%s: %d/%d obligations discharged, %d functions analysed, %.1fs' % (prop, disch, total, len(funcs), time.time() - t0))
    return 0


def _moved(b):
    """the program is fine but an internal name or layout the reference uses is gone: nothing was decided"""
    return 'entry point not found' in b or 'no such class' in b or 'does not compile: ' + VERIF in b


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('KNOWN-FINDING: property='):
                r = l[len('KNOWN-FINDING: property='):]
                prop, rest = r.split(' ', 1)
                if '|' in rest:
                    key, txt = rest.split('|', 1)
                    out.append((prop, key.strip(), txt.strip()))
    return out


LEVEL = {}
RULES = {}
ASSUME = [
    'A-ALLOC: malloc/calloc succeed (allocation-failure branches are not part of the statement)',
    'A-NOWRAP: byte counts and loop counters stay below 2^31, size sums do not wrap 64 bits',
    'A-PRIM: below-layer primitives are summarised as pure functions of their operands; each is the subject of its own property where claimed',
    'A-VALID: objects passed in are well formed (arrays hold as many elements as their counters say, distinct live objects do not overlap)',
]


def at(p, off):
    """pointer off bytes behind p"""
    p = aspt(p)
    return mkptr(p.a[0], add(p.a[1], C(off, 64)))
