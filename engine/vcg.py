"""VC generator: symbolic execution of LLVM IR with loop contracts (Houdini-inferred
invariants), exceptions, object-based memory, and obligations discharged by SMT."""
import json, re, sys, time
import z3
from sym import *

HIER = {}
def _h(n, b): HIER['_ZTISt%d%s' % (len(n), n)] = b and '_ZTISt%d%s' % (len(b), b)
for n, b in [('exception', None), ('logic_error', 'exception'), ('invalid_argument', 'logic_error'),
             ('out_of_range', 'logic_error'), ('length_error', 'logic_error'), ('domain_error', 'logic_error'),
             ('runtime_error', 'exception'), ('range_error', 'runtime_error'), ('overflow_error', 'runtime_error'),
             ('bad_alloc', 'exception'), ('bad_cast', 'exception'), ('bad_typeid', 'exception'), ('bad_function_call', 'exception'),
             ('nested_exception', None)]:
    _h(n, b)

class Node:
    """lazy functional array: content of a memory object, keyed by byte offset"""
    __slots__ = ('k', 'p', 'a', 'memo')
    def __init__(s, k, p=None, a=None): s.k = k; s.p = p; s.a = a; s.memo = {}

class Lazy:
    __slots__ = ('es', 'node')
    def __init__(s, es, node): s.es = es; s.node = node
class Cells:
    __slots__ = ('c', 'fill')
    def __init__(s, c=None, fill=None): s.c = c if c is not None else {}; s.fill = fill
    def copy(s): return Cells(dict(s.c), s.fill)

def lread(node, off, es):
    w = es * 8
    key = off if is_int(off) else ('t', off.get_id())
    m = node.memo.get(key)
    if m is not None: return m[0]
    k = node.k
    if k == 'uf': r = norm(node.a(bv(off, 64)))
    elif k == 'init':
        if is_int(off): r = node.a.get(off, 0)
        else:
            n = max(node.a) + es if node.a else es
            bits = max(1, (n - 1).bit_length())
            def mux(lo, b):
                if b < 0 or (es > 1 and (1 << (b + 1)) == es): return node.a.get(lo, 0)
                x = mux(lo, b - 1); y = mux(lo + (1 << b), b - 1) if lo + (1 << b) < n else x
                if is_int(x) and is_int(y) and x == y: return x
                if x is y: return x
                return z3.If(z3.Extract(b, b, off) == 1, bv(y, w), bv(x, w))
            r = mux(0, bits - 1)
            if not is_int(r): r = norm(r)
    elif k == 'store':
        so, v = node.a
        c = eq(off, so)
        if c is True: r = v
        elif c is False: r = lread(node.p, off, es)
        else: r = ite(c, v, lread(node.p, off, es), w)
    elif k == 'copy':
        dst, ln, src, so = node.a
        d = sub(off, dst)
        c = ult(d, ln)
        if c is True: r = lread(src, add(d, so), es)
        elif c is False: r = lread(node.p, off, es)
        else: r = ite(c, lread(src, add(d, so), es), lread(node.p, off, es), w)
    elif k == 'fill':
        dst, ln, v = node.a
        c = ult(sub(off, dst), ln)
        if c is True: r = v
        elif c is False: r = lread(node.p, off, es)
        else: r = ite(c, v, lread(node.p, off, es), w)
    elif k == 'wide': # elements of es bytes of a byte array
        bs = [lread(node.p, add(off, i), 1) for i in range(es)]
        if all(is_int(b) for b in bs): r = sum(b << (8 * i) for i, b in enumerate(bs))
        else: r = norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
    elif k == 'copyz':
        dst, ln, src, so, ses = node.a      # widening copy, index by element (stride 1), source bytes
        d = sub(off, dst)
        c = ult(d, ln)
        def rd():
            x = lread(src, add(mul(d, ses), so), ses)
            return x if is_int(x) else norm(z3.ZeroExt(w - 8 * ses, x))
        if c is True: r = rd()
        elif c is False: r = lread(node.p, off, es)
        else: r = ite(c, rd(), lread(node.p, off, es), w)
    elif k == 'fn':
        r = node.a(off)
    else: raise Unsupported('node ' + k)
    node.memo[key] = (r, off)
    return r

class Frame:
    __slots__ = ('fn', 'env', 'blk', 'ip', 'allocas', 'uid', 'cnt', 'va', 'cb')
    n = 0
    def __init__(s, fn):
        Frame.n += 1
        s.fn = fn; s.env = {}; s.blk = 0; s.ip = 0; s.allocas = []; s.uid = Frame.n; s.cnt = {}; s.va = None; s.cb = None
    def copy(s):
        f = Frame.__new__(Frame)
        f.fn = s.fn; f.env = dict(s.env); f.blk = s.blk; f.ip = s.ip; f.allocas = list(s.allocas); f.uid = s.uid; f.cnt = dict(s.cnt); f.va = s.va; f.cb = s.cb
        return f

class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.dead = {}; s.cont = {}; s.loops = {}; s.wlog = None
        s.exc = []; s.caught = []; s.nfork = 0; s.ghost = {}; s.alive = True; s.hpred = (); s.helem = (); s.hval = (); s.hfn = (); s.hinv = (); s.ax = (); s.calls = 0; s.trace = (); s.ins = ()
    def clone(s):
        n = State.__new__(State)
        n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.pc = list(s.pc); n.dead = dict(s.dead); n.cont = dict(s.cont)
        n.loops = dict(s.loops); n.wlog = set(s.wlog) if s.wlog is not None else None; n.exc = list(s.exc); n.caught = list(s.caught)
        n.nfork = s.nfork; n.ghost = dict(s.ghost); n.alive = s.alive; n.hpred = s.hpred; n.helem = s.helem; n.hval = s.hval; n.hfn = s.hfn; n.hinv = s.hinv; n.ax = s.ax; n.calls = s.calls; n.trace = s.trace; n.ins = s.ins
        return n
    def assume(s, c):
        if c is True: return
        if c is False: s.alive = False; return
        s.pc.append(c)

class Loop:
    def __init__(s, header, blocks): s.header = header; s.blocks = frozenset(blocks)

class Fn:
    def __init__(s, j):
        s.name = j['name']; s.dem = j['dem']; s.args = j['args']; s.ret = j['ret']; s.nounwind = j['nounwind']; s.vararg = j['vararg']
        s.retfull = j.get('retfull')
        s.blocks = j.get('blocks'); s.loops = {}
        for l in j.get('loops', []): s.loops[l['header']] = Loop(l['header'], l['blocks'])
        s.pure = None

class LoopRec:
    def __init__(s, mode, L): s.mode = mode; s.L = L; s.backs = []; s.cut = None

class Failure:
    def __init__(s, kind, label, fn, loc, model, status, trace):
        s.kind = kind; s.label = label; s.fn = fn; s.loc = loc; s.model = model; s.status = status; s.trace = trace

class Engine:
    def __init__(self, mod, models, opts=None):
        self.fns = {n: Fn(j) for n, j in mod['fns'].items()}
        self.globals = mod['globals']
        self.opts = opts or {}
        self.solver = Solver()
        self.models = models  # function: dem name -> handler or None
        self.model_cache = {}
        self.cutset = set(); self.nocut = set()
        self.deadline = None
        self.reset()
        self.stats = dict(paths=0, instr=0, forks=0, loops_cut=0, houdini_rounds=0, cand_tried=0, cand_kept=0)
        self.used_models = set(); self.executed = set()
        self.loopinfo = {}
        self.hint_cache = {}; self.inobj = {}
        self.thrown_types = set(); self.exc_ti = {}
    def reset(self):
        self.obl = {}       # (kind,label,fn,loc) -> [instances, discharged]
        self.fails = []
        self.wide = {}      # narrow value -> the value it was truncated from
        self.reach = {}     # label -> bool
        self.reach_decl = set()
        self.inputs = []    # (name, kind, term(s))
        self.mode = 'check'; self.spec = False
        self.gobj = {}
        self.tids = {}
        self.icmplog = None

    # ------------------------------------------------------------ obligations
    def where(self, st, ins=None):
        fr = st.frames[-1]
        loc = None
        # the innermost frame with a location in the code under contract
        for f in reversed(st.frames):
            b = f.fn.blocks[f.blk]
            i = b[min(f.ip, len(b) - 1)]
            l = i.get('loc')
            if l and 'utki::' in f.fn.dem:
                return f.fn.dem, l
        i = fr.fn.blocks[fr.blk][min(fr.ip, len(fr.fn.blocks[fr.blk]) - 1)]
        return fr.fn.dem, i.get('loc')
    def prove(self, st, cond, kind, label=''):
        """assert-then-assume"""
        if not st.alive: return
        if self.mode == 'assume':
            if cond is False: st.alive = False
            else: st.assume(cond)
            return
        fn, loc = self.where(st)
        key = (kind, label, short(fn), loc)
        o = self.obl.setdefault(key, [0, 0])
        o[0] += 1
        if cond is True:
            o[1] += 1; return
        r = self.solver.check(st.pc, b_not(cond) if cond is not False else None)
        if r == 'unsat':
            o[1] += 1
            if cond is False: st.alive = False
            else: st.assume(cond)
            return
        model = None
        if r == 'sat':
            nc = b_not(cond) if cond is not False else None
            model = self.small_model(st, nc)
        self.fail(st, kind, label, model, 'failed' if r == 'sat' else 'unknown')
        if cond is False: st.alive = False
        else:
            st.assume(cond)
            if self.solver.check(st.pc) == 'unsat': st.alive = False
    def small_model(self, st, nc):
        """counterexample, preferring short inputs"""
        lens = [t for _, k, t in [self.inputs[i] for i in st.ins] if k == 'len' and not is_int(t)]
        for lim in (8, 64, 2000):
            if not lens: break
            ex = [z3.ULE(t, z3.BitVecVal(lim, 64)) for t in lens]
            if self.solver.check(st.pc + ex, nc, need_model=True) == 'sat': return self.solver.last_model
        self.solver.check(st.pc, nc, need_model=True)
        return self.solver.last_model
    def fail(self, st, kind, label, model, status):
        fn, loc = self.where(st)
        self.obl.setdefault((kind, label, short(fn), loc), [1, 0])
        inputs = None
        if model is not None: inputs = self.concretise(model, st)
        f = Failure(kind, label, short(fn), loc, inputs, status, ' > '.join(short(x.fn.dem) for x in st.frames))
        f.inloop = any(r.mode == 'final' for r in st.loops.values())
        self.fails.append(f)
        if len(self.fails) > self.opts.get('maxfail', 12): raise Budget('many failures')
    def concretise(self, m, st):
        out = []
        vals = {}
        def ev(t):
            if is_int(t): return t
            if isinstance(t, bool): return int(t)
            return m.eval(t, model_completion=True).as_long()
        for name, kind, t in [self.inputs[i] for i in st.ins]:
            if kind in ('any', 'len', 'ghost'): out.append([kind, name, ev(t)])
            elif kind == 'bytes':
                f, n = t; n = ev(n)
                if n > 1 << 16: out.append(['bytes', name, None]); continue
                out.append(['bytes', name, ''.join('%02x' % ev(f(z3.BitVecVal(i, 64))) for i in range(n))])
        return out

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, name, ro=False, kind='heap', es=None, content=None):
        o = Obj(size, name, ro, kind, es)
        st.mem[o.id] = content if content is not None else (Cells() if is_int(size) else Lazy(es or 1, Node('uf', a=freshf('mem', 8 * (es or 1)))))
        return o
    def kill(self, st, obj, why):
        st.dead[obj.id] = why
    def content(self, st, obj):
        return st.mem[obj.id]
    def access(self, st, p, size, write):
        if isinstance(p, FnPtr): raise Unsupported('data access through function pointer')
        if p is UNDEF:
            self.prove(st, False, 'memory', 'uninitialised pointer used'); return False
        if p.obj is None:
            self.prove(st, False, 'memory', 'null pointer dereference'); return False
        o = p.obj
        if o.id in st.dead:
            self.prove(st, False, 'memory', 'access to dead object (%s)' % st.dead[o.id]); return False
        if is_int(o.size) and is_int(p.off):
            c = p.off + size <= o.size
        elif is_int(o.size):
            c = ule(p.off, o.size - size) if o.size >= size else False
        else:
            if is_int(p.off): c = b_and(ule(p.off + size, o.size))
            else: c = b_and(ule(size, o.size), ule(p.off, sub(o.size, size)))
        self.prove(st, c, 'memory', ('write' if write else 'read') + ' within bounds')
        if not st.alive: return False
        if write:
            if o.ro:
                self.prove(st, False, 'memory', 'write to read-only object'); return False
        return True
    def wlog(self, st, obj, off, size):
        if st.wlog is not None: st.wlog.add((obj, off, size))
    def split_byte(self, v, size, i):
        if is_int(v): return (v >> (8 * i)) & 0xff
        if isinstance(v, (Ptr, FnPtr, PtrInt)): raise Unsupported('partial access to a stored pointer')
        if v is UNDEF: return UNDEF
        if isinstance(v, bool) or z3.is_bool(v): v = z3.If(zb(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        return norm(z3.Extract(8 * i + 7, 8 * i, v))
    def join_bytes(self, bs):
        if all(b is UNDEF for b in bs): return UNDEF
        bs = [fresh('undef', 8) if b is UNDEF else b for b in bs]  # padding copied along with a value
        if all(is_int(b) for b in bs): return sum(b << (8 * i) for i, b in enumerate(bs))
        if len(bs) == 1: return bs[0]
        return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
    def cell_read(self, c, off, size):
        e = c.c.get(off)
        if e is not None and e[0] == size: return e[1]
        bs = []
        for i in range(size):
            bs.append(self.cell_byte(c, off + i))
        if all(b is None for b in bs): return UNDEF
        return self.join_bytes([UNDEF if b is None else b for b in bs])
    def cell_byte(self, c, off):
        for o in range(off, off - 17, -1):
            e = c.c.get(o)
            if e is not None:
                if o + e[0] > off: return self.split_byte(e[1], e[0], off - o)
                break
        f = c.fill
        if f is None: return None
        if callable(f): return f(off)
        return f
    def cell_write(self, c, off, size, v):
        # remove/split overlapping cells
        for o in list(range(off - 16, off + size)):
            e = c.c.get(o)
            if e is None or o + e[0] <= off: continue
            if o >= off and o + e[0] <= off + size:
                del c.c[o]; continue
            del c.c[o]
            if isinstance(e[1], (Ptr, FnPtr)): continue
            for i in range(e[0]):
                if not (off <= o + i < off + size): c.c[o + i] = (1, self.split_byte(e[1], e[0], i))
        c.c[off] = (size, v)
    def to_lazy(self, st, obj, es=1):
        c = st.mem[obj.id]
        if isinstance(c, Lazy): return c
        n = obj.size
        if not is_int(n): raise Unsupported('cells of symbolic size')
        if n > 1 << 16: raise Unsupported('large object')
        ok = all(e[0] == es and o % es == 0 for o, e in c.c.items()) if es > 1 else True
        if not ok or n % es: es = 1
        d = {}; und = None
        for o in range(0, n, es):
            v = self.cell_read(c, o, es)
            if v is UNDEF:
                if und is None: und = freshf('uninit', 8 * es)
                v = und(z3.BitVecVal(o, 64))
            if isinstance(v, (Ptr, FnPtr, PtrInt)): raise Unsupported('symbolic offset into object holding pointers: %s' % obj)
            d[o] = v
        l = Lazy(es, Node('init', a=d)); st.mem[obj.id] = l
        return l
    def load(self, st, p, size, t, check=True):
        if check and not self.access(st, p, size, False): return None
        if p.obj.x is not None:
            r = p.obj.x.load(self, st, p, size, t)
            if r is not NotImplemented: return r
        c = st.mem[p.obj.id]
        if isinstance(c, Cells):
            if is_int(p.off): v = self.cell_read(c, p.off, size)
            else: c = self.to_lazy(st, p.obj, size if size in (1, 2, 4, 8) else 1)
        if isinstance(c, Lazy):
            if c.es == size: v = lread(c.node, p.off, c.es)
            elif c.es == 1: v = self.join_bytes([lread(c.node, add(p.off, i), 1) for i in range(size)])
            elif c.es > size and is_int(p.off):
                b = p.off // c.es * c.es; v = lread(c.node, b, c.es); k = p.off - b
                v = (v >> (8 * k)) & mask(8 * size) if is_int(v) else norm(z3.Extract(8 * (k + size) - 1, 8 * k, v))
            elif c.es < size and size % c.es == 0:
                parts = [lread(c.node, add(p.off, i), c.es) for i in range(0, size, c.es)]
                v = norm(z3.Concat(*[bv(x, 8 * c.es) for x in reversed(parts)]))
            else: raise Unsupported('load of %d bytes from %d-byte elements' % (size, c.es))
        return self.coerce(v, t, size)
    def coerce(self, v, t, size):
        if v is UNDEF: return UNDEF
        if t == 'p':
            if isinstance(v, (Ptr, FnPtr)): return v
            if isinstance(v, PtrInt): return v.p
            if is_int(v) and v == 0: return NULL
            raise Unsupported('integer loaded as pointer')
        if t == 'i1':
            if isinstance(v, bool): return v
            return (v & 1) == 1 if is_int(v) else nbool(z3.Extract(0, 0, v) == 1)
        if isinstance(v, Ptr):
            return PtrInt(v)
        return v
    def store(self, st, p, size, v, check=True):
        if check and not self.access(st, p, size, True): return
        if isinstance(v, bool): v = int(v)
        elif z3.is_bool(v): v = norm(z3.If(v, z3.BitVecVal(1, 8 * size), z3.BitVecVal(0, 8 * size)))
        if p.obj.x is not None:
            r = p.obj.x.store(self, st, p, size, v)
            if r is not NotImplemented: return
        c = st.mem[p.obj.id]
        if isinstance(c, Cells) and not is_int(p.off):
            c = self.to_lazy(st, p.obj, size if size in (1, 2, 4, 8) else 1)
        if isinstance(c, Cells):
            c = c.copy(); self.cell_write(c, p.off, size, v); st.mem[p.obj.id] = c
            self.wlog(st, p.obj, p.off, size)
        else:
            if isinstance(v, (Ptr, FnPtr, PtrInt)):
                raise Unsupported('pointer stored into array object')
            if v is UNDEF: v = fresh('undef', size * 8)
            if c.es == size: n = Node('store', c.node, (p.off, v))
            elif c.es == 1:
                n = c.node
                for i in range(size): n = Node('store', n, (add(p.off, i), self.split_byte(v, size, i)))
            elif size % c.es == 0:
                n = c.node
                for i in range(0, size, c.es):
                    n = Node('store', n, (add(p.off, i), (v >> (8 * i)) & mask(8 * c.es) if is_int(v) else norm(z3.Extract(8 * (i + c.es) - 1, 8 * i, v))))
            else: raise Unsupported('store of %d bytes into %d-byte elements' % (size, c.es))
            st.mem[p.obj.id] = Lazy(c.es, n)
            self.wlog(st, p.obj, None, None)
    def memcpy(self, st, dst, src, n):
        """n in bytes"""
        if is_int(n) and n == 0: return
        nz = eq(n, 0) if not is_int(n) else False
        if nz is not False:
            # symbolic length: bounds obligation guarded by n != 0
            self.range_ok(st, dst, n, True); self.range_ok(st, src, n, False)
            if not st.alive: return
            if dst.obj is None or src.obj is None: return
            sc = self.to_lazy(st, src.obj, 1) if isinstance(st.mem[src.obj.id], Cells) else st.mem[src.obj.id]
            if isinstance(st.mem[dst.obj.id], Cells): self.to_lazy(st, dst.obj, sc.es)
            dc = st.mem[dst.obj.id]
            if dc.es != sc.es: raise Unsupported('memcpy between element sizes')
            st.mem[dst.obj.id] = Lazy(dc.es, Node('copy', dc.node, (dst.off, n, sc.node, src.off)))
            self.wlog(st, dst.obj, None, None)
            return
        if not self.access(st, dst, n, True) or not self.access(st, src, n, False): return
        sc = st.mem[src.obj.id]; dc = st.mem[dst.obj.id]
        if src.obj.x is not None or dst.obj.x is not None: raise Unsupported('memcpy on abstract object')
        if isinstance(sc, Cells) and isinstance(dc, Cells) and is_int(src.off) and is_int(dst.off):
            items = []; o = src.off; end = src.off + n
            while o < end:
                e = sc.c.get(o)
                if e is not None and o + e[0] <= end: items.append((o, e[0], e[1])); o += e[0]
                else:
                    items.append((o, 1, self.cell_read(sc, o, 1))); o += 1
            c = dc.copy()
            for o, s, v in items: self.cell_write(c, o - src.off + dst.off, s, v)
            st.mem[dst.obj.id] = c
            self.wlog(st, dst.obj, dst.off, n)
            # a container copied bytewise (trivial relocation) keeps its identity
            for (oid, off), k in list(st.cont.items()):
                if oid == src.obj.id and src.off <= off < end: st.cont[(dst.obj.id, off - src.off + dst.off)] = k
            return
        if isinstance(dc, Lazy) and isinstance(sc, Cells) and is_int(src.off) and is_int(n) and n <= 64 and n % dc.es == 0:
            for i in range(0, n, dc.es): self.store(st, Ptr(dst.obj, add(dst.off, i)), dc.es, self.cell_read(sc, src.off + i, dc.es), check=False)
            return
        sl = self.to_lazy(st, src.obj, 1) if isinstance(sc, Cells) else sc
        if isinstance(dc, Cells) and is_int(dst.off) and is_int(n) and n <= 64:
            for i in range(0, n, sl.es): self.store(st, Ptr(dst.obj, dst.off + i), sl.es, lread(sl.node, add(src.off, i), sl.es), check=False)
            return
        dl = self.to_lazy(st, dst.obj, sl.es) if isinstance(dc, Cells) else dc
        if dl.es == sl.es:
            st.mem[dst.obj.id] = Lazy(dl.es, Node('copy', dl.node, (dst.off, n, sl.node, src.off)))
            self.wlog(st, dst.obj, None, None)
        elif dl.es == 1 and is_int(n) and n <= 64:
            for i in range(0, n, sl.es): self.store(st, Ptr(dst.obj, add(dst.off, i)), sl.es, lread(sl.node, add(src.off, i), sl.es), check=False)
        else: raise Unsupported('memcpy between element sizes')
    def range_ok(self, st, p, n, write, label=None):
        """obligation: [p,p+n) accessible (vacuous for n == 0)"""
        lab = label or ('write range within bounds' if write else 'read range within bounds')
        if p.obj is None:
            self.prove(st, eq(n, 0), 'memory', lab + ' (null)'); return
        if p.obj.id in st.dead:
            self.prove(st, eq(n, 0), 'memory', lab + ' (dead object: %s)' % st.dead[p.obj.id]); return
        self.prove(st, b_or(eq(n, 0), b_and(ule(p.off, p.obj.size), ule(n, sub(p.obj.size, p.off)))), 'memory', lab)
        if write and p.obj.ro: self.prove(st, eq(n, 0), 'memory', 'write to read-only object')
    def lazy_of(self, st, obj, es=1):
        c = st.mem[obj.id]
        if isinstance(c, Cells): c = self.to_lazy(st, obj, es)
        return c

    # ------------------------------------------------------------ constants
    def const(self, st, v):
        k = v[0]
        if k == 'i':
            n = int(v[2])
            return bool(n) if v[1] == 1 else n
        if k == 'null': return NULL
        if k == 'fn': return FnPtr(v[1])
        if k == 'g': return Ptr(self.gvar(st, v[1]), 0)
        if k == 'cgep':
            p = self.const(st, v[1])
            return Ptr(p.obj, add(p.off, v[2] & mask(64)))
        if k == 'undef':
            if v[1].startswith('agg:'): return Agg({o: (UNDEF, s) for t, o, s in v[2]})
            return UNDEF
        if k == 'zero': return Agg({o: (NULL if t == 'p' else 0, s) for t, o, s in v[1]})
        if k == 'cagg': return Agg({o: (self.const(st, c), s) for o, s, c in v[1]})
        if k == 'fp': return int(v[2])
        if k == 'cptrtoint': return PtrInt(self.const(st, v[1]))
        if k == 'cinttoptr':
            x = self.const(st, v[1])
            return Ptr(None, x) if is_int(x) else x.p
        if k == 'cbitcast': return self.const(st, v[1])
        if k == 'md': return None
        raise Unsupported('constant %s' % v)
    def gvar(self, st, name):
        o = self.gobj.get(name)
        if o is None:
            g = self.globals.get(name, {'size': 0, 'const': False})
            # type information of another library: vtable and name
            ext_ti = name.startswith('_ZTI') and not g.get('init')
            o = Obj(16 if ext_ti else g['size'], name, g['const'], 'global')
            self.gobj[name] = o
            self.ginit = getattr(self, 'ginit', {})
        if o.id not in st.mem:
            g = self.globals.get(name, {'size': 0, 'const': False})
            init = g.get('init'); c = Cells()
            if init is None and name.startswith('_ZTI'):
                tn = name.replace('_ZTI', '_ZTS', 1)
                if not (self.globals.get(tn) or {}).get('init'): self.globals[tn] = {'size': len(name) - 3, 'const': True, 'text': name[4:]}
                c.c[0] = (8, fresh('ext', 64)); c.c[8] = (8, Ptr(self.gvar(st, tn), 0))
            elif g.get('text') is not None:
                for i_, ch in enumerate(g['text'] + '\0'): c.c[i_] = (1, ord(ch))
            elif init is None and 0 < g['size'] <= 8 and name not in ('_ZSt4cout', '_ZSt4cerr'):
                # defined elsewhere: unknown value (the same for all accesses of this run)
                d = self.__dict__.setdefault('gext', {})
                if name not in d: d[name] = fresh('ext', 8 * g['size'])
                c.c[0] = (g['size'], d[name])
            if init is not None:
                if init[0] in ('cagg',):
                    big = init[2] >= 64 and len(init[1]) > 32
                    es = {s for _, s, _ in init[1]}
                    if big and len(es) == 1 and all(x[0] in ('i', 'zero') for _, _, x in init[1]):
                        c = self.gcontent.get(name) if hasattr(self, 'gcontent') else None
                        if c is None:
                            c = Lazy(es.pop(), Node('init', a={o_: self.const(st, x) for o_, s_, x in init[1]}))
                            if not hasattr(self, 'gcontent'): self.gcontent = {}
                            self.gcontent[name] = c
                    else:
                        for off, s, x in init[1]: c.c[off] = (s, self.const(st, x))
                elif init[0] == 'zero': c.fill = 0
                elif init[0] == 'undef': pass
                else: c.c[0] = (g['size'], self.const(st, init))
            st.mem[o.id] = c
        return o
    def val(self, st, v):
        if v[0] == 'r':
            return st.frames[-1].env[v[1]]
        return self.const(st, v)

    # ------------------------------------------------------------ integer ops
    def as_int(self, st, v, w):
        """lower pointers-as-integers and reject undef"""
        if isinstance(v, PtrInt):
            p = v.p
            if isinstance(p, FnPtr): return (hash(p.name) & 0xffffffff) | 0x100000000
            if p.obj is None: return p.off
            return self.addr(st, p)
        if v is UNDEF:
            self.prove(st, False, 'memory', 'uninitialised value used')
            return 0
        return v
    def addr(self, st, p):
        if p.obj is None: return p.off
        a = p.obj.address()
        k = ('addr', p.obj.id)
        if k not in st.ghost:
            st.ghost[k] = True
            st.assume(z3.ULE(z3.BitVecVal(4096, 64), a)); st.assume(z3.ULE(a, z3.BitVecVal(1 << 60, 64)))
            # disjoint from the other objects whose address is observed
            for kk in list(st.ghost):
                if isinstance(kk, tuple) and kk[0] == 'addr' and kk[1] != p.obj.id:
                    o2 = st.ghost.get(('addrobj', kk[1]))
                    if o2 is not None:
                        st.assume(z3.Or(z3.ULT(a + bv(p.obj.size, 64), o2.address()), z3.ULT(o2.address() + bv(o2.size, 64), a)))
            st.ghost[('addrobj', p.obj.id)] = p.obj
        return add(a, p.off)
    def binop(self, st, op, a, b, w, ins):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            if a.p.obj is b.p.obj: return sub(a.p.off, b.p.off)
            # null-based pointers: nullptr - nullptr is 0; different objects: undefined in C++
            if not isinstance(a.p, FnPtr) and not isinstance(b.p, FnPtr):
                if (a.p.obj is None) != (b.p.obj is None):
                    # computed on a path that does not use it (speculated); any use sees an arbitrary value
                    return fresh('pdiff', w)
                self.prove(st, False, 'ub', 'difference of pointers into different objects')
                return 0
        if isinstance(a, PtrInt) and isinstance(a.p, FnPtr):
            if op == 'and' and is_int(b) and b in (0, 1): return 0   # functions are aligned (pointers to members rely on it)
            raise Unsupported('arithmetic on a function address')
        if isinstance(a, PtrInt) and op in ('add', 'sub') and not isinstance(b, PtrInt) and b is not UNDEF:
            return PtrInt(Ptr(a.p.obj, add(a.p.off, b) if op == 'add' else sub(a.p.off, b)))
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)) or w == 1:
            if a is UNDEF or b is UNDEF: self.as_int(st, UNDEF, 1); return False
            if op == 'and': return b_and(a, b)
            if op == 'or': return b_or(a, b)
            if op in ('xor', 'add', 'sub'): return (a != b) if isinstance(a, bool) and isinstance(b, bool) else nbool(z3.Xor(zb(a), zb(b)))
            raise Unsupported('i1 ' + op)
        if op in ('and', 'or', 'shl', 'lshr'):
            # bits of a not (yet) initialised aggregate: unknown, as the value is assembled piecewise
            if a is UNDEF: a = fresh('undef', w)
            if b is UNDEF: b = fresh('undef', w)
        a = self.as_int(st, a, w); b = self.as_int(st, b, w)
        M = mask(w)
        conc = is_int(a) and is_int(b)
        if op in ('add', 'sub', 'mul'):
            if ins.get('nsw'):
                if conc:
                    r = {'add': sgn(a, w) + sgn(b, w), 'sub': sgn(a, w) - sgn(b, w), 'mul': sgn(a, w) * sgn(b, w)}[op]
                    self.prove(st, -(1 << (w - 1)) <= r < (1 << (w - 1)), 'ub', 'signed overflow')
                else:
                    A, B = bv(a, w), bv(b, w)
                    if op == 'add': c = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
                    elif op == 'sub': c = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
                    else: c = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
                    self.prove(st, nbool(c), 'ub', 'signed overflow')
            if conc: return {'add': a + b, 'sub': a - b, 'mul': a * b}[op] & M
            if op == 'add': return add(a, b, w)
            if op == 'sub': return sub(a, b, w)
            return mul(a, b, w)
        if op in ('shl', 'lshr', 'ashr'):
            c = ult(b, w, w)
            self.prove(st, c, 'ub', 'shift amount less than width')
            if not st.alive: return 0
            if op == 'shl' and ins.get('nsw'):
                pass
            if conc:
                if op == 'shl': return (a << b) & M
                if op == 'lshr': return a >> b
                return (sgn(a, w) >> b) & M
            A, B = bv(a, w), bv(b, w)
            return norm(A << B if op == 'shl' else z3.LShR(A, B) if op == 'lshr' else A >> B)
        if op in ('and', 'or', 'xor'):
            if conc: return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
            A, B = bv(a, w), bv(b, w)
            return norm({'and': A & B, 'or': A | B, 'xor': A ^ B}[op])
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.prove(st, b_not(eq(b, 0, w)), 'ub', 'division by zero')
            if not st.alive: return 0
            if op in ('sdiv', 'srem'):
                self.prove(st, b_not(b_and(eq(a, 1 << (w - 1), w), eq(b, M, w))), 'ub', 'signed division overflow')
            if not st.alive: return 0
            if conc:
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == 'sdiv' else x - q * y) & M
            A, B = bv(a, w), bv(b, w)
            if op == 'sdiv' and ins.get('exact') and is_int(b) and b & (b - 1) == 0:
                return norm(A >> (b.bit_length() - 1))
            return norm({'udiv': lambda: z3.UDiv(A, B), 'sdiv': lambda: A / B, 'urem': lambda: z3.URem(A, B), 'srem': lambda: z3.SRem(A, B)}[op]())
        raise Unsupported('binop ' + op)
    def icmp(self, st, pred, a, b, t):
        if t == 'p':
            if a is UNDEF or b is UNDEF:
                self.as_int(st, UNDEF, 64); return False
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                if pred == 'eq': return e
                if pred == 'ne': return not e
                raise Unsupported('relational compare of function pointers')
            if a.obj is b.obj:
                if self.icmplog is not None: self.icmplog.append((a.off, b.off, 64))
                a, b, w = a.off, b.off, 64
            elif pred in ('eq', 'ne'):
                # pointers into different objects (or null) are unequal
                if a.obj is None or b.obj is None or True:
                    x = a if a.obj is not None else b
                    return pred == 'ne'
            else:
                a, b, w = self.addr(st, a), self.addr(st, b), 64
        elif isinstance(a, PtrInt) and isinstance(b, PtrInt) and a.p.obj is b.p.obj and a.p.obj is not None:
            a, b, w = a.p.off, b.p.off, 64
        elif isinstance(a, PtrInt) and is_int(b) and b == 0 and pred in ('eq', 'ne'):
            e = a.p.obj is None and a.p.off == 0
            return e if pred == 'eq' else not e
        elif isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            x = nbool(zb(a) == zb(b))
            if pred == 'eq': return x
            if pred == 'ne': return b_not(x)
            raise Unsupported('i1 cmp ' + pred)
        else:
            w = int(t[1:]); a = self.as_int(st, a, w); b = self.as_int(st, b, w)
            if self.icmplog is not None and w > 1: self.icmplog.append((a, b, w))
        if is_int(a) and is_int(b):
            if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
            p = pred[-2:] if pred not in ('eq', 'ne') else pred
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        if w == 64:
            r = None
            if pred in ('eq', 'ne'): r = lcmp('eq', a, b)
            elif pred in ('ult', 'uge'): r = lcmp('ult', a, b)
            elif pred in ('ugt', 'ule'): r = lcmp('ult', b, a)
            elif pred in ('slt', 'sge'): r = lcmp('slt', a, b)
            elif pred in ('sgt', 'sle'): r = lcmp('slt', b, a)
            if r is not None: return b_not(r) if pred in ('ne', 'uge', 'ule', 'sge', 'sle') else r
        if pred in ('eq', 'ne'):
            r = eq(a, b, w)
            return r if pred == 'eq' else b_not(r)
        A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
             'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[pred]()
        return nbool(r)
    def cast(self, st, op, v, st_, dt):
        if op == 'ptrtoint':
            return PtrInt(v) if v is not UNDEF else UNDEF
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return v.p
            if is_int(v): return Ptr(None, v)
            raise Unsupported('inttoptr')
        if op == 'bitcast': return v
        if op in ('zext', 'sext', 'trunc'):
            if v is UNDEF: return UNDEF
            dw = int(dt[1:]); sw = int(st_[1:])
            if isinstance(v, (bool, z3.BoolRef)):
                one = 1 if op == 'zext' else mask(dw)
                if isinstance(v, bool): return one if v else 0
                return norm(z3.If(v, z3.BitVecVal(one, dw), z3.BitVecVal(0, dw)))
            v = self.as_int(st, v, sw)
            if op == 'trunc':
                if dw == 1:
                    if is_int(v): return bool(v & 1)
                    x = bit0(v)
                    return x[0] if x is not None else nbool(z3.Extract(0, 0, v) == 1)
                if is_int(v): return v & mask(dw)
                r = norm(z3.Extract(dw - 1, 0, v))
                if z3.is_expr(r) and v.num_args() > 1: self.wide[r.get_id()] = (r, v)
                return r
            if op == 'zext': return v if is_int(v) else norm(z3.ZeroExt(dw - sw, v))
            if is_int(v): return sgn(v, sw) & mask(dw)
            x = self.wide.get(v.get_id())
            # (signed narrow)(x) widened again is x when x is small
            if x is not None and not self.spec and x[1].size() >= dw and self.solver.check(st.pc, z3.UGT(x[1], z3.BitVecVal(mask(sw - 1), x[1].size())), lazy=True) == 'unsat':
                x = x[1]
                if x.size() == dw: return x
                r = norm(z3.Extract(dw - 1, 0, x))
                if z3.is_expr(r): self.wide[r.get_id()] = (r, x)
                return r
            return z3.SignExt(dw - sw, v)
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ exceptions
    def typeid(self, name):
        if name not in self.tids: self.tids[name] = len(self.tids) + 1
        return self.tids[name]
    def bases(self, ti):
        if ti in HIER: return [HIER[ti]] if HIER[ti] else []
        g = self.globals.get(ti)
        r = []
        if g and g.get('init') and g['init'][0] == 'cagg':
            for off, s, x in g['init'][1]:
                if off >= 16 and x[0] == 'g' and x[1].startswith('_ZTI'): r.append(x[1])
        return r
    def subobjects(self, ti, off=0):
        """[(typeinfo, offset)] of a class and its (public, non-virtual) bases, from its RTTI"""
        g = self.globals.get(ti); r = [(ti, off)]
        if not (g and g.get('init') and g['init'][0] == 'cagg'): return r
        f = {o: x for o, s, x in g['init'][1]}
        if 20 in f:
            for i in range(int(f[20][2])):
                x = int(f[32 + 16 * i][2])
                if x & 1: raise Unsupported('virtual base')
                if x & 2: r += self.subobjects(f[24 + 16 * i][1], off + (x >> 8))
        elif 16 in f and f[16][0] == 'g': r += self.subobjects(f[16][1], off)
        return r
    def derives(self, ti, base):
        if ti == base: return True
        return any(self.derives(b, base) for b in self.bases(ti))
    def new_exc(self, st, ti):
        o = self.new_obj(st, 64, 'exception', kind='heap')
        return Ptr(o, 0), ti
    def throw(self, st, exc, base):
        """unwind; exc = (ptr, typeinfo name).  Returns 'landed' or 'out'."""
        self.thrown_types.add(exc[1])
        if exc[0].obj is not None: self.exc_ti[exc[0].obj.id] = exc[1]
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.ip]
            if ins['op'] == 'invoke':
                lp = fr.fn.blocks[ins['unwind']]
                lpi = next(i for i in lp if i['op'] == 'landingpad')
                sel = None; ptr = exc[0]
                for kind, c in lpi['clauses']:
                    if kind == 'catch':
                        if c[0] == 'null': sel = self.typeid('...'); break
                        if c[0] == 'g' and self.derives(exc[1], c[1]):
                            sel = self.typeid(c[1])
                            o = [o for t, o in self.subobjects(exc[1]) if t == c[1]]
                            if len(o) > 1: raise Unsupported('ambiguous base of an exception')
                            if o and o[0] != 0: ptr = Ptr(ptr.obj, add(ptr.off, o[0]))
                            break
                    else: raise Unsupported('exception filter')
                if sel is None and lpi['cleanup']: sel = 0
                if sel is not None:
                    st.exc.append(exc)
                    fr.env['lp'] = Agg({0: (ptr, 8), 8: (sel, 4)})
                    return self.goto(st, ins['unwind'])
            # pop the frame
            if fr.cb is not None:
                pass
            self.pop_frame(st)
            if len(st.frames) < base: return 'out'
    def pop_frame(self, st):
        fr = st.frames.pop()
        for o in fr.allocas: st.dead[o.id] = 'left scope'

    # ------------------------------------------------------------ control
    def goto(self, st, tgt):
        fr = st.frames[-1]
        src = fr.blk
        blk = fr.fn.blocks[tgt]
        new = {}
        for i in blk:
            if i['op'] != 'phi': break
            for b, v in i['ops']:
                if b == src: new[i['id']] = self.val(st, v); break
            else: raise Unsupported('phi without edge')
        fr.env.update(new)
        n = len(new)
        fr.blk = tgt; fr.ip = 0
        while fr.ip < len(blk) and blk[fr.ip]['op'] == 'phi': fr.ip += 1
        # leaving a loop that a Houdini run is restricted to
        for key, rec in list(st.loops.items()):
            if key[0] == fr.uid and tgt not in rec.L.blocks:
                if rec.mode == 'houdini': return 'exit'
                del st.loops[key]
        L = fr.fn.loops.get(tgt)
        if L is not None:
            key = (fr.uid, tgt)
            back = src in L.blocks
            if not back:
                st.loops.pop(key, None); fr.cnt.pop(tgt, None)
            rec = st.loops.get(key)
            if rec is not None and back:
                return ('back', rec)
            lk = (fr.fn.name, tgt)
            if lk in self.cutset and not back: return ('cut', L)
            c = fr.cnt.get(tgt, (0, 0, st.nfork))
            sym = c[1] + (1 if st.nfork != c[2] else 0)
            fr.cnt[tgt] = (c[0] + 1, sym, st.nfork)
            if st.ax: self.inst_axioms(st, [c[0], c[0] + 1])
            lim = self.opts.get('unroll', 9)
            if st.ax and self.opts.get('eager') and re.search(self.opts['eager'], fr.fn.dem): lim = 1
            if self.opts.get('eager_fn') and re.search(self.opts['eager_fn'], fr.fn.dem): lim = 1
            if sym > lim or c[0] > 3000:
                if lk in self.nocut: return 'bound'
                raise NeedCut(lk)
        return None

    def feasible(self, st, c):
        if c is True: return True
        if c is False: return False
        if self.spec: return True
        return self.solver.check(st.pc, c, lazy=True) != 'unsat'

    def push_call(self, st, fn, args):
        f = Frame(fn)
        n = len(fn.args)
        for i in range(n): f.env[i] = args[i]
        if fn.vararg: f.va = list(args[n:])
        if len(st.frames) > self.opts.get('depth', 120): raise Unsupported('recursion too deep')
        st.frames.append(f)
        self.executed.add(fn.name)

    def is_pure(self, fn):
        if fn.pure is not None: return fn.pure
        fn.pure = False  # recursion: not pure
        if fn.blocks is None or fn.ret == 'void' or fn.ret == 'p' or fn.ret.startswith('agg') or fn.loops or fn.vararg: return False
        if len(fn.blocks) < 2 or sum(len(b) for b in fn.blocks) > 250: return False
        fn.pure = self._pure_body(fn)
        return fn.pure
    def _pure_body(self, fn, depth=0):
        if fn.blocks is None or depth > 8 or fn.loops: return False
        own = set()
        for b in fn.blocks:
            for i in b:
                op = i['op']
                if op == 'alloca': own.add(i['id'])
                elif op == 'getelementptr' and i['ops'][0][0] == 'r' and i['ops'][0][1] in own: own.add(i['id'])
                elif op == 'store':
                    d = i['ops'][1]
                    if not (d[0] == 'r' and d[1] in own): return False
                elif op in ('call', 'invoke'):
                    c = i['callee']
                    if c[0] != 'fn': return False
                    n = c[1]
                    if n.startswith('llvm.'): 
                        if 'mem' in n: return False
                        continue
                    f = self.fns.get(n)
                    if f is None: return False
                    h = self.handler(f)
                    if h is not None:
                        if getattr(h, 'pure', False): continue
                        return False
                    if any(o[0] == 'r' and o[1] in own for o in i['ops']) and f.blocks is not None:
                        # passes its own locals by reference: callee may write them; allow if callee is pure itself
                        pass
                    if not self._pure_body(f, depth + 1): return False
                elif op in ('atomicrmw', 'cmpxchg', 'fence', 'resume', 'landingpad') or i.get('atomic'): return False
        return True
    def handler(self, fn):
        h = self.model_cache.get(fn.name, 0)
        if h == 0:
            h = self.models(fn.name, fn.dem, fn.blocks is not None)
            self.model_cache[fn.name] = h
        return h

    def call(self, st, ins, fname, args, work, base):
        """perform a call; returns None when a frame was pushed, or ('val', v) when done inline,
        or a list of states that replaced this one"""
        fn = self.fns.get(fname)
        dem = fn.dem if fn else fname
        for rx, target, *by in self.opts.get('replace', ()):
            # modular: the call is replaced by the callee's contract (proved by another entry); by: only calls of these callers
            if fn is not None and re.match(rx, dem) and (not by or re.match(by[0], st.frames[-1].fn.dem)):
                if target is None: raise Unsupported('no contract for ' + dem)
                if target == 'inline': break
                fname = target; fn = self.fns[target]
                self.used_models.add('contract %s in place of %s' % (target, dem))
                break
        if fn is None:
            h = self.models(fname, fname, False)
        else: h = self.handler(fn)
        if h is not None:
            self.used_models.add(getattr(h, 'doc', None) or h.__name__)
            return h(self, st, ins, args, Ctx(self, st, ins, fn, work, base))
        if fn.blocks is None: raise Unsupported('external function without contract: ' + dem)
        if ins.get('byval'):
            args = list(args)
            for i, s in ins['byval']:
                o = self.new_obj(st, s, 'byval', kind='stack')
                self.memcpy(st, Ptr(o, 0), args[i], s)
                args[i] = Ptr(o, 0)
        if self.is_pure(fn) and self.opts.get('merge', True):
            r = self.call_merged(st, fn, args)
            if r is not None: return r
        self.push_call(st, fn, args)
        return None
    def call_merged(self, st, fn, args):
        """execute a branching, effect-free callee on all its paths and merge the results"""
        s = st.clone(); depth = len(s.frames)
        k = len(s.pc)
        self.push_call(s, fn, args)
        outs = []
        nf = self.stats['forks']
        def done(s2, how, v): outs.append((s2, how, v))
        self.explore([s], depth + 1, done)
        if any(how != 'ret' for _, how, _ in outs): return None
        if not outs:
            st.alive = False; return ('val', None)
        w = int(fn.ret[1:]) if fn.ret[0] == 'i' else {'f32': 32, 'f64': 64, 'f80': 80}[fn.ret]
        vals = []
        for s2, _, v in outs:
            if isinstance(v, PtrInt): return None
            vals.append((b_and(*s2.pc[k:]), v))
        if len(outs) == 1:
            s2 = outs[0][0]; st.pc = s2.pc; st.ghost = s2.ghost
            return ('val', vals[0][1])
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            if fn.ret == 'i1': r = nbool(z3.If(zb(c), zb(v), zb(r)))
            else: r = ite(c if isinstance(c, bool) else nbool(c), v, r, w)
        # paths are exhaustive unless some path was cut by an (assumed) obligation
        alive = nbool(z3.Or(*[zb(c) for c, _ in vals])) if len(vals) > 1 else True
        st.assume(alive)
        return ('val', r)

    def eval_fn(self, st, name, t):
        """value of the specification function `name` at t in st (obligations inside are assumed)"""
        save = self.mode, self.icmplog, self.spec
        self.mode = 'assume'; self.icmplog = None; self.spec = True
        try: r = self.call_merged(st, self.fns[name], t if isinstance(t, list) else [t])
        finally: self.mode, self.icmplog, self.spec = save
        if r is None: raise Unsupported('specification function %s is not pure' % name)
        return r[1]
    def inst_axioms(self, st, terms):
        for t in terms:
            for a in st.ax:
                k = ('ax', a, t if is_int(t) else t.get_id())
                if k in st.ghost: continue
                st.ghost[k] = t
                st.assume(self.eval_fn(st, a, t))
                if not st.alive: return
    def explore(self, states, base, done):
        """run states until the frame stack is shorter than base (or the path ends)"""
        work = list(states)
        while work:
            st = work.pop()
            self.run(st, work, base, done)
    def run(self, st, work, base, done):
        stats = self.stats
        while True:
            if not st.alive: return
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.ip]
            op = ins['op']
            stats['instr'] += 1
            if stats['instr'] & 1023 == 0 and self.deadline and time.time() > self.deadline: raise Budget('time')
            r = None
            if op in BIN:
                ops = ins['ops']
                a = self.val(st, ops[0]); b = self.val(st, ops[1])
                fr.env[ins['id']] = self.binop(st, op, a, b, int(ins['t'][1:]), ins) if ins['t'][0] == 'i' else self.fbin(st, op, a, b, ins)
            elif op == 'icmp':
                fr.env[ins['id']] = self.icmp(st, ins['pred'], self.val(st, ins['ops'][0]), self.val(st, ins['ops'][1]), ins['ct'])
            elif op in CASTS:
                x = self.val(st, ins['ops'][0])
                if x is UNDEF and op == 'zext' and any(i['op'] in ('or', 'shl') and ['r', ins['id']] in [list(o) for o in i['ops']] for i in fr.fn.blocks[fr.blk][fr.ip + 1:fr.ip + 5]):
                    x = fresh('undef', int(ins['st'][1:])) # padding of an aggregate passed by value, assembled piecewise
                fr.env[ins['id']] = self.cast(st, op, x, ins['st'], ins['t'])
            elif op == 'getelementptr':
                if ins.get('unsup'): raise Unsupported('gep')
                p = self.val(st, ins['ops'][0])
                off = ins['coff'] & mask(64)
                for v, sc, t in ins['voff']:
                    x = self.val(st, v); x = self.as_int(st, x, 64)
                    if t != 'i64': x = self.cast(st, 'sext', x, t, 'i64')
                    off = add(off, mul(x, sc & mask(64)))
                if p is UNDEF: 
                    self.as_int(st, UNDEF, 64); p = NULL
                if isinstance(p, FnPtr): raise Unsupported('gep on function')
                fr.env[ins['id']] = self.gep(st, p, off, ins)
            elif op == 'load':
                p = self.val(st, ins['ops'][0])
                if ins['t'].startswith('agg:'):
                    d = {}
                    for t, o, s in ins['tf']: d[o] = (self.load(st, Ptr(p.obj, add(p.off, o)), s, t), s)
                    fr.env[ins['id']] = Agg(d)
                else:
                    if ins.get('atomic') and self.atomic_call(st, ins, 'load', [p, ins['atomic']], ins['size']): continue
                    fr.env[ins['id']] = self.load(st, p, ins['size'], ins['t'])
            elif op == 'store':
                v = self.val(st, ins['ops'][0]); p = self.val(st, ins['ops'][1])
                if isinstance(v, Agg):
                    for o, (x, s) in v.d.items(): self.store(st, Ptr(p.obj, add(p.off, o)), s, x)
                else:
                    if p is UNDEF: self.as_int(st, UNDEF, 64); continue
                    if ins.get('atomic') and self.atomic_call(st, ins, 'store', [p, self.as64(st, v, ins['size']), ins['atomic']], None): continue
                    self.store(st, p, ins['size'], v)
            elif op == 'alloca':
                if ins['arr']: raise Unsupported('variable-length alloca')
                o = self.new_obj(st, ins['size'], 'local', kind='stack', es=ins.get('es'))
                fr.allocas.append(o); fr.env[ins['id']] = Ptr(o, 0)
            elif op == 'br':
                if len(ins['tgt']) == 1: r = self.goto(st, ins['tgt'][0])
                else:
                    c = self.val(st, ins['ops'][0])
                    if c is UNDEF:
                        self.prove(st, False, 'memory', 'branch on uninitialised value'); return
                    r = self.branch(st, [(c, ins['tgt'][0]), (b_not(c), ins['tgt'][1])], work)
                if r is not None and not self.jumped(st, r, work, base): return
                continue
            elif op == 'switch':
                v = self.val(st, ins['ops'][0]); w = int(ins['st'][1:])
                v = self.as_int(st, v, w)
                alts = []; neg = []
                bytgt = {}
                for cv, tgt in ins['cases']:
                    c = eq(v, int(cv[2]), w) if w > 1 else (v if int(cv[2]) else b_not(v))
                    bytgt.setdefault(tgt, []).append(c); neg.append(b_not(c))
                for tgt, cs in bytgt.items(): alts.append((b_or(*cs), tgt))
                alts.append((b_and(*neg), ins['default']))
                r = self.branch(st, alts, work)
                if r is not None and not self.jumped(st, r, work, base): return
                continue
            elif op == 'ret':
                v = self.val(st, ins['ops'][0]) if ins['ops'] else None
                cb = fr.cb
                self.pop_frame(st)
                if cb is not None:
                    # return into a contract (model) that called back into code
                    rr = cb(st, v)
                    if rr is not None:
                        if rr == 'end': return
                        v = rr[1]
                    else: continue
                if len(st.frames) < base:
                    done(st, 'ret', v); return
                r = self.after_call(st, v)
                if r is not None and not self.jumped(st, r, work, base): return
                continue
            elif op in ('call', 'invoke'):
                st.calls += 1
                callee = ins['callee']
                args = [self.val(st, a) for a in ins['ops']] if not ins['asm'] else []
                if ins['asm']: raise Unsupported('inline asm')
                if callee[0] == 'fn': f = callee[1]
                else:
                    cv = self.val(st, callee)
                    if not isinstance(cv, FnPtr):
                        self.prove(st, False, 'memory', 'call through invalid function pointer'); return
                    f = cv.name
                res = self.call(st, ins, f, args, work, base)
                if res is None: continue
                k = res[0]
                if k == 'val':
                    if not st.alive: return
                    r = self.after_call(st, res[1])
                    if r is not None and not self.jumped(st, r, work, base): return
                    continue
                if k == 'end': return
                if k == 'throw':
                    rr = self.throw(st, res[1], base)
                    if rr == 'out':
                        done(st, 'throw', res[1]); return
                    if rr is not None and not self.jumped(st, rr, work, base): return
                    continue
                if k == 'done':  # control already transferred by the model
                    rr = res[1]
                    if rr is not None and not self.jumped(st, rr, work, base): return
                    continue
                if k == 'fork':  # [(cond, fn(state))...]: continue on several states
                    for s2, v in res[1]:
                        s2.nfork += 1
                    outs = res[1]
                    for s2, v in outs:
                        # finish the call in each state
                        if isinstance(v, tuple) and v and v[0] == 'throw':
                            rr = self.throw(s2, v[1], base)
                            if rr == 'out': done(s2, 'throw', v[1]); continue
                        else: rr = self.after_call(s2, v)
                        if rr is not None:
                            if not self.jumped(s2, rr, work, base): continue
                        work.append(s2)
                    return
                raise Unsupported('call result ' + k)
            elif op == 'extractvalue':
                a = self.val(st, ins['ops'][0])
                if ins['t'].startswith('agg:'):
                    fr.env[ins['id']] = Agg({o: a.d[o + ins['off']] for t, o, s in ins['tf']})
                else: fr.env[ins['id']] = a.d[ins['off']][0]
            elif op == 'insertvalue':
                a = self.val(st, ins['ops'][0]); v = self.val(st, ins['ops'][1])
                d = dict(a.d)
                if isinstance(v, Agg):
                    for o, x in v.d.items(): d[o + ins['off']] = x
                else: d[ins['off']] = (v, d.get(ins['off'], (None, 8))[1])
                fr.env[ins['id']] = Agg(d)
            elif op == 'select':
                c = self.val(st, ins['ops'][0]); a = self.val(st, ins['ops'][1]); b = self.val(st, ins['ops'][2])
                if isinstance(c, bool): fr.env[ins['id']] = a if c else b
                elif c is UNDEF: self.prove(st, False, 'memory', 'select on uninitialised value'); return
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                    fr.env[ins['id']] = Ptr(a.obj, ite(c, a.off, b.off, 64))
                elif isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                    fr.env[ins['id']] = nbool(z3.If(c, zb(a), zb(b)))
                elif (is_int(a) or z3.is_bv(a)) and (is_int(b) or z3.is_bv(b)):
                    w = int(ins['t'][1:])
                    fr.env[ins['id']] = ite(c, a, b, w)
                else:
                    s2 = None
                    f1 = self.feasible(st, c); f2 = self.feasible(st, z3.Not(c))
                    if f1 and f2:
                        s2 = st.clone(); s2.assume(z3.Not(c)); s2.frames[-1].env[ins['id']] = b; s2.frames[-1].ip += 1
                        s2.nfork += 1; st.nfork += 1
                        work.append(s2); stats['forks'] += 1
                    if not f1 and not f2: return
                    if f1: st.assume(c)
                    else: st.assume(z3.Not(c))
                    fr.env[ins['id']] = a if f1 else b
            elif op == 'landingpad':
                fr.env[ins['id']] = fr.env.pop('lp')
            elif op == 'resume':
                exc = st.exc.pop() if st.exc else None
                # resume is not an invoke: unwind from the caller
                self.pop_frame(st)
                if len(st.frames) < base: done(st, 'throw', exc); return
                rr = self.throw(st, exc, base)
                if rr == 'out': done(st, 'throw', exc); return
                if rr is not None and not self.jumped(st, rr, work, base): return
                continue
            elif op == 'unreachable':
                self.prove(st, False, 'ub', 'unreachable executed'); return
            elif op == 'freeze':
                v = self.val(st, ins['ops'][0])
                if v is UNDEF: v = fresh('frz', int(ins['t'][1:])) if ins['t'] != 'i1' else freshb('frz')
                fr.env[ins['id']] = v
            elif op in ('atomicrmw', 'cmpxchg', 'fence'):
                if self.opts.get('atomic_call'):
                    n = ins.get('size'); o = ins['atomic']
                    if op == 'fence': a = ['fence', [o], None]
                    else:
                        p = self.val(st, ins['ops'][0])
                        x = [self.as64(st, self.val(st, k), n) for k in ins['ops'][1:]]
                        if op == 'cmpxchg': a = ['cas', [p] + x + [o], n]
                        else: a = ['rmw', [p, ['xchg', 'or', 'and', 'add', 'sub'].index(ins['rmw']) if ins['rmw'] in ('xchg', 'or', 'and', 'add', 'sub') else 9] + x + [o], n]
                    if not st.alive: return
                    if self.atomic_call(st, ins, *a): continue
                self.atomic_ins(st, ins)
                if not st.alive: return
            elif op == 'fcmp':
                fr.env[ins['id']] = self.fcmp(st, ins)
            elif op == 'va_arg': raise Unsupported('va_arg')
            else: raise Unsupported('instruction ' + op)
            fr.ip += 1
    def gep(self, st, p, off, ins):
        return Ptr(p.obj, add(p.off, off))
    def fbin(self, st, op, a, b, ins): raise Unsupported('float ' + op)
    def fcmp(self, st, ins): raise Unsupported('fcmp')
    def as64(self, st, v, n):
        if isinstance(v, (Ptr, PtrInt, FnPtr, Agg)): raise Unsupported('atomic operation on a pointer')
        v = self.as_int(st, v, 8 * n)
        if isinstance(v, (bool, z3.BoolRef)): return ite(v, 1, 0, 64) if not isinstance(v, bool) else int(v)
        return v if is_int(v) or n == 8 else norm(z3.ZeroExt(64 - 8 * n, v))
    def atomic_call(self, st, ins, what, args, size):
        """atomic operation by a contract of the harness (vpc_atomic_load, ...), which may let other threads act"""
        if not self.opts.get('atomic_call'): return False
        fn = self.fns.get('vpc_atomic_' + what)
        if fn is None or fn.blocks is None: raise Unsupported('no contract for atomic ' + what)
        self.used_models.add('contract vpc_atomic_%s for atomic operations' % what)
        self.push_call(st, fn, args)
        def cb(s, v):
            fr = s.frames[-1]
            if size is not None:
                w = 8 * size
                lo = lambda x: (x & ((1 << w) - 1)) if is_int(x) else (x if w == 64 else norm(z3.Extract(w - 1, 0, x)))
                r = lo(v)
                if what == 'cas':
                    ok = bool(v >> 63) if is_int(v) else nbool(z3.Extract(63, 63, v) == 1)
                    r = Agg({0: (r, size), size: (ok, 1)})
                if ins.get('t') == 'i1': r = bool(r & 1) if is_int(r) else nbool(z3.Extract(0, 0, r) == 1)
                fr.env[ins['id']] = r
            fr.ip += 1
            return None
        st.frames[-1].cb = cb
        return True
    def atomic_ins(self, st, ins):
        # sequential meaning (no other thread; concurrency is the subject of the spin_lock harness only)
        self.used_models.add('atomic instructions have their sequential meaning (single thread, no spurious failures)')
        fr = st.frames[-1]
        if ins['op'] == 'fence': return
        p = self.val(st, ins['ops'][0]); n = ins['size']
        if ins['op'] == 'atomicrmw':
            v = self.val(st, ins['ops'][1]); old = self.load(st, p, n, 'i%d' % (8 * n))
            if not st.alive: return
            w = 8 * n; o = self.as_int(st, old, w); v = self.as_int(st, v, w)
            if not st.alive: return
            r = {'add': lambda: add(o, v, w), 'sub': lambda: norm(bv(o, w) - bv(v, w)), 'xchg': lambda: v, 'or': lambda: norm(bv(o, w) | bv(v, w)), 'and': lambda: norm(bv(o, w) & bv(v, w))}.get(ins['rmw'])
            if r is None: raise Unsupported('atomicrmw ' + ins['rmw'])
            self.store(st, p, n, r())
            fr.env[ins['id']] = old
        else: # cmpxchg -> {old, success}; a weak one may fail
            w = 8 * n
            old = self.as_int(st, self.load(st, p, n, 'i%d' % w), w)
            if not st.alive: return
            x = self.as_int(st, self.val(st, ins['ops'][1]), w); v = self.as_int(st, self.val(st, ins['ops'][2]), w)
            ok = eq(old, x, w)
            # a weak one does not fail spuriously
            self.store(st, p, n, ite(ok, v, old, w) if not isinstance(ok, bool) else (v if ok else old))
            fr.env[ins['id']] = Agg({0: (old, n), n: (ok, 1)})

    def after_call(self, st, v):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.blk][fr.ip]
        if 't' in ins: fr.env[ins['id']] = v
        if ins['op'] == 'invoke': return self.goto(st, ins['normal'])
        fr.ip += 1
        return None
    def branch(self, st, alts, work):
        for c, tgt in alts:
            if c is True: return self.goto(st, tgt)
        fe = [(c, tgt) for c, tgt in alts if c is not False and self.feasible(st, c)]
        if not fe:
            st.alive = False; return 'dead'
        if len(fe) == 1:
            # the negations are implied by pc; keep the condition for later simplification
            st.assume(fe[0][0])
            return self.goto(st, fe[0][1])
        self.stats['forks'] += 1
        # prefer staying inside the innermost loop (found first => NeedCut is raised early)
        fr = st.frames[-1]
        inl = [x for x in fe if any(fr.blk in L.blocks and x[1] in L.blocks for L in fr.fn.loops.values())]
        first = inl[0] if inl else fe[0]
        for c, tgt in fe:
            if tgt == first[1] and c is first[0]: continue
            s2 = st.clone(); s2.nfork += 1; s2.assume(c)
            work.append((s2, tgt))
        # materialise the deferred jumps now (cheap) so that work holds only states
        pend = []
        while work and isinstance(work[-1], tuple): pend.append(work.pop())
        for s2, tgt in pend:
            work.append(Pending(s2, tgt))
        st.nfork += 1; st.assume(first[0])
        return self.goto(st, first[1])
    def jumped(self, st, r, work, base):
        """handle the result of goto; returns True to continue this state"""
        if r in ('dead', 'exit', 'bound'):
            if r == 'bound': self.stats['bounded'] = self.stats.get('bounded', 0) + 1
            return False
        if isinstance(r, tuple) and r[0] == 'back':
            r[1].backs.append(st) if r[1].mode == 'houdini' else None
            return False
        if isinstance(r, tuple) and r[0] == 'cut':
            return self.cut_loop(st, r[1])
        return True

    # ------------------------------------------------------------ loops
    from loops import cut_loop, loop_vars, snapshot, havoc_loop, houdini_run, gen_cands, keep_true

    # ------------------------------------------------------------ top level
    def verify(self, entry):
        """verify harness `entry`; restarts when a loop has to be cut"""
        while True:
            self.reset()
            st = State()
            f = Frame(self.fns[entry]); st.frames.append(f)
            self.executed.add(entry)
            def done(s, how, v):
                self.stats['paths'] += 1
                if how == 'throw':
                    lab = 'exception escapes: ' + str(v and v[1])
                    o = self.obl.setdefault(('exception', lab, entry, None), [0, 0]); o[0] += 1
                    r = self.solver.check(s.pc)
                    if r == 'unsat': o[1] += 1; return
                    m = self.small_model(s, None) if r == 'sat' else None
                    self.fails.append(Failure('exception', lab, entry, None, self.concretise(m, s) if m is not None else None, 'failed' if r == 'sat' else 'unknown', entry))
            try:
                self.explore([st], 1, done)
                return
            except NeedCut as e:
                if e.key in self.cutset: raise Unsupported('loop %s cut but unrolled' % (e.key,))
                self.cutset.add(e.key)
                self.stats['restarts'] = self.stats.get('restarts', 0) + 1

class Pending:
    def __init__(s, st, tgt): s.st = st; s.tgt = tgt

_orig_run = Engine.run
def _run(self, st, work, base, done):
    if isinstance(st, Pending):
        s = st.st
        r = self.goto(s, st.tgt)
        if r is not None and not self.jumped(s, r, work, base): return
        st = s
    _orig_run(self, st, work, base, done)
Engine.run = _run

class Ctx:
    """what a contract (model) needs besides its arguments"""
    def __init__(s, e, st, ins, fn, work, base): s.e = e; s.st = st; s.ins = ins; s.fn = fn; s.work = work; s.base = base

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}

def short(dem):
    d = re.sub(r'\[abi:\w+\]', '', dem)
    d = d.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'std::string')
    d = d.replace('std::basic_string_view<char, std::char_traits<char> >', 'std::string_view')
    return d if len(d) < 160 else d[:157] + '...'
