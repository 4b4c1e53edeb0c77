"""Loop contracts: an unbounded loop is cut at its header.  The frame condition (what the body
may write) is collected by executing the body; the invariant is the largest conjunction of
candidate formulas that holds on entry and is preserved by an arbitrary iteration (Houdini);
termination is a decreasing measure.  Candidates are only tried, never assumed."""
import z3
from sym import *

class Cut:
    pass
class Cand:
    __slots__ = ('desc', 'fn', 'meta', 'hf')
    def __init__(s, desc, fn, meta=None): s.desc = desc; s.fn = fn; s.meta = meta

def ext(v, w):
    """to 64 bits, unsigned"""
    if isinstance(v, bool): return int(v)
    if z3.is_bool(v): return norm(z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
    if is_int(v): return v
    return v if w == 64 else norm(z3.ZeroExt(64 - w, v))

def loop_vars(self, cut, st):
    pass

def snapshot(self, cut, st, t):
    """name -> (64-bit term) for every numeric loop variable; 'raw' values for objects"""
    d = {'t': t}
    raw = {}
    env = st.frames[cut.depth].env
    for pid in cut.phis:
        v = env[pid]
        raw['phi%d' % pid] = v
        w = cut.phiw[pid]
        if isinstance(v, Ptr): d['phi%d' % pid] = v.off
        elif isinstance(v, PtrInt): d['phi%d' % pid] = v.p.off
        elif v is UNDEF or isinstance(v, (FnPtr, Agg)): pass
        else: d['phi%d' % pid] = ext(v, w)
    for (obj, off, size) in cut.cells:
        c = st.mem.get(obj.id)
        if c is None or not hasattr(c, 'c'): continue
        v = self.cell_read(c, off, size)
        n = 'm%d.%d' % (obj.id, off)
        raw[n] = v
        if isinstance(v, Ptr): d[n] = v.off
        elif v is UNDEF or isinstance(v, (FnPtr, PtrInt)): pass
        elif size <= 8: d[n] = ext(v, 8 * size)
    for key in cut.conts:
        k = st.cont.get(key)
        if k is None: continue
        for n, v in k.vars(self, st, cut.contobj[key], key[1]).items():
            d['c%d.%d.%s' % (key[0], key[1], n)] = v
    return d, raw

def upper(cands):
    """name -> exclusive constant bound that a candidate 'name <= b' gives"""
    r = {}
    for c in cands:
        if c.meta and c.meta[0] == 'le' and len(c.meta) > 3:
            b = c.meta[4]
            x = b + 1 if is_int(b) else None
            if x is None:
                l = lin(b)
                if l is not None:
                    lo, hi = lrange(l)
                    if lo >= 0: x = hi + 1
            if x is not None and x <= 1 << 60: r[c.meta[3]] = min(x, r.get(c.meta[3], x))
    return r
def havoc_loop(self, cut, st, sub=None, ub=None):
    """make st an arbitrary iteration: everything the body writes gets an unknown value, except
    what an equational candidate (part of the invariant) fixes"""
    env = st.frames[cut.depth].env
    sub = sub or {}
    ub = ub or {}
    def fr64(name, n):
        return freshk(st, name, ub[n]) if n in ub else fresh(name, 64)
    for pid in cut.phis:
        v = env[pid]; w = cut.phiw[pid]
        if ('phi', pid) in cut.poison: env[pid] = UNDEF
        elif isinstance(v, Ptr): env[pid] = Ptr(v.obj, sub['phi%d' % pid] if 'phi%d' % pid in sub else fr64('lp', 'phi%d' % pid)) if v.obj is not None else v
        elif isinstance(v, PtrInt): env[pid] = PtrInt(Ptr(v.p.obj, sub['phi%d' % pid] if 'phi%d' % pid in sub else fr64('lp', 'phi%d' % pid)))
        elif w == 64 and 'phi%d' % pid in sub: env[pid] = sub['phi%d' % pid]
        elif isinstance(v, (bool, z3.BoolRef)): env[pid] = freshb('lb')
        elif v is UNDEF or isinstance(v, (FnPtr, Agg)): pass
        elif w == 64: env[pid] = fr64('lv', 'phi%d' % pid)
        else: env[pid] = fresh('lv', w)
    for key in cut.conts:
        k = st.cont[key]
        fixed = {n[len(pre):]: v for n, v in sub.items() for pre in ['c%d.%d.' % key] if n.startswith(pre)}
        k.havoc(self, st, cut.contobj[key], key[1], fixed)
    for obj in cut.lazies:
        c = self.lazy_of(st, obj, obj.es or 1)
        st.mem[obj.id] = type(c)(c.es, mknode(c.es))
    for (obj, off, size) in cut.cells:
        if (obj.id, off, size) in cut.poison:
            c = st.mem[obj.id].copy(); self.cell_write(c, off, size, UNDEF); st.mem[obj.id] = c
            continue
        c = st.mem[obj.id]
        if not hasattr(c, 'c'):
            raise Unsupported('loop frame: cell object became an array')
        v = self.cell_read(c, off, size)
        c = c.copy()
        cn = 'm%d.%d' % (obj.id, off)
        if isinstance(v, Ptr): nv = Ptr(v.obj, sub[cn] if cn in sub else fr64('lc', cn)) if v.obj is not None else v
        elif size == 8 and cn in sub and not (v is UNDEF or isinstance(v, (FnPtr, PtrInt))): nv = sub[cn]
        elif v is UNDEF or isinstance(v, (FnPtr, PtrInt)): nv = v if isinstance(v, FnPtr) else UNDEF
        elif size == 8: nv = fr64('lc', cn)
        else: nv = fresh('lc', 8 * size)
        self.cell_write(c, off, size, nv); st.mem[obj.id] = c
    for x in cut.abst:
        x.x.havoc(self, st, x)
    for oid, why in cut.dead.items(): st.dead[oid] = why
    for key in cut.dropcont: st.cont.pop(key, None)

def eqs(cands, t):
    return {c.meta[1]: c.meta[2](t) for c in cands if c.meta and c.meta[0] == 'eq'}
def mknode(es):
    from vcg import Node
    return Node('uf', a=freshf('hv', 8 * es))

def houdini_run(self, cut, entry, cands, log=None):
    """one arbitrary iteration under the candidates; returns (header snapshot, back states)"""
    from vcg import LoopRec
    st = entry.clone()
    t = cut.t = freshk(st, 't', 1 << 56)
    havoc_loop(self, cut, st, eqs(cands, t), upper(cands))
    if st.ax: self.inst_axioms(st, [t, add(t, 1)])
    hs, hraw = snapshot(self, cut, st, t)
    for c in cands:
        f = c.fn(hs, st)
        st.assume(f)
    k = len(st.pc)
    rec = LoopRec('houdini', cut.L)
    st.loops[(st.frames[-1].uid, cut.L.header)] = rec
    st.wlog = set()
    save = (self.mode, self.icmplog)
    self.mode = 'assume'; self.icmplog = log
    try:
        if st.alive and self.solver.check(st.pc) != 'unsat':
            self.explore([st], len(st.frames), lambda *a: None)
    finally:
        self.mode, self.icmplog = save
    self.stats['houdini_rounds'] += 1
    return hs, hraw, rec.backs

def keep_true(self, pc, items):
    """items: list of (cand, formula).  Returns those not provable from pc."""
    bad = [c for c, f in items if f is False]
    work = [[(c, f) for c, f in items if f is not True and f is not False]]
    while work:
        todo = work.pop()
        if not todo: continue
        if len(todo) == 1:
            if self.solver.check(pc, z3.Not(todo[0][1])) != 'unsat': bad.append(todo[0][0])
            continue
        r = self.solver.check(pc, z3.Not(z3.And(*[f for _, f in todo])), need_model=True, quick_only=True)
        if r == 'unsat': continue
        if r == 'sat':
            m = self.solver.last_model
            nt = []; hit = False
            for k, wl in enumerate(work + [todo]):   # the model refutes candidates of all groups
                keep = []
                for c, f in wl:
                    if z3.is_false(m.eval(f, model_completion=True)): bad.append(c); hit = hit or wl is todo
                    else: keep.append((c, f))
                nt.append(keep)
            if hit: work = nt; continue
        h = len(todo) // 2
        work.append(todo[:h]); work.append(todo[h:])
    return bad

def mentions(e, syms):
    seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in syms: return True
            st.extend(x.children())
    return False
def symset(vals):
    s = set(); seen = set(); stack = [v for v in vals if z3.is_expr(v)]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: s.add(d.name())
            stack.extend(x.children())
    return s

def gen_cands(self, cut, st, es, hs, disc, log):
    """candidate invariants from templates, comparisons in the code and harness hints"""
    out = []
    names = [n for n in hs if n in es and n != 't']
    # constant strides
    for n in names:
        ds = set()
        for b in disc:
            if n not in b: ds.add(None); continue
            x = sub(b[n], hs[n])
            ds.add(x if is_int(x) else None)
        e0 = es[n]
        if len(ds) == 1:
            c = ds.pop()
            if c is not None:
                if c == 0: out.append(Cand('%s unchanged' % n, lambda s, st, n=n, e0=e0: eq(s[n], e0), ('eq', n, lambda t, e0=e0: e0)))
                else: out.append(Cand('%s == entry + %d*t' % (n, sgn(c, 64)), lambda s, st, n=n, e0=e0, c=c: eq(s[n], add(e0, mul(c, s['t']))), ('eq', n, lambda t, e0=e0, c=c: add(e0, mul(c, t)), c)))
    # bounds
    bounds = {}
    hsyms = set()
    class Base:  # symbols that existed when the loop was entered
        def has(_, ss):
            for x in ss:
                n = x.rsplit('!', 1)
                if len(n) == 2 and n[1].isdigit() and int(n[1]) > cut.fresh0: return False
            return True
    base_syms = Base()
    for v in hs.values():
        if z3.is_expr(v): hsyms |= {x for x in symset([v]) if not base_syms.has([x])}
    def addb(x, w=64, ew=None):
        x = ext(x, w); w = ew or w
        if is_int(x): key = x
        else:
            if mentions(x, hsyms): return
            ss = symset([x])
            if not base_syms.has(ss): return
            key = x.get_id()
        o = bounds.get(key)
        if o is None: bounds[key] = (x, {w})
        else: o[1].add(w)
    def width(n):
        if n.startswith('phi'): return 64 if isinstance(st.frames[cut.depth].env.get(int(n[3:])), (Ptr, PtrInt)) else cut.phiw[int(n[3:])]
        return cut.cellw.get(n, 64)
    for n in names:
        addb(es[n], 64, width(n))
        if is_int(es[n]): addb(es[n])
    for r in cut.objs: addb(r.size)
    for v in st.hval: addb(v)
    if log:
        for a, b, w in log[:400]:
            if is_int(a) and is_int(b): continue
            addb(a, w); addb(b, w)
            if len(bounds) > 24: break
    for key in cut.conts: pass
    blist = list(bounds.values())[:28]
    # narrow variables that the code compares after widening
    cmpw = set()
    for a, b, w in (log or [])[:400]:
        if w == 64:
            for x in (a, b):
                if z3.is_expr(x):
                    sy = symset([x])
                    cmpw |= {n for n in hs if z3.is_expr(hs[n]) and width(n) < 64 and symset([hs[n]]) & sy}
    cmpw |= {n for n in hs if width(n) == 64}
    allv = names + ['t']
    for n in allv:
        wn = width(n)
        for b, ws in blist:
            if not (is_int(b) and b <= 1) and wn not in ws: continue
            out.append(Cand('%s <= %s' % (n, b), lambda s, st, n=n, b=b: ule(s[n], b), ('le', lambda s, n=n: s[n], lambda s, b=b: b, n, b)))
            if not (is_int(b) and b == 0):
                out.append(Cand('%s >= %s' % (n, b), lambda s, st, n=n, b=b: ule(b, s[n]), ('le', lambda s, b=b: b, lambda s, n=n: s[n])))
            if not is_int(b) or b < 1 << 16:
                out.append(Cand('%s != %s' % (n, b), lambda s, st, n=n, b=b: b_not(eq(s[n], b))))
    for i, n in enumerate(allv):
        for m in allv[i + 1:]:
            if width(n) != width(m) and (n not in cmpw or m not in cmpw): continue
            out.append(Cand('%s <= %s' % (n, m), lambda s, st, n=n, m=m: ule(s[n], s[m]), ('le', lambda s, n=n: s[n], lambda s, m=m: s[m])))
            out.append(Cand('%s <= %s' % (m, n), lambda s, st, n=n, m=m: ule(s[m], s[n]), ('le', lambda s, m=m: s[m], lambda s, n=n: s[n])))
            out.append(Cand('%s != %s' % (n, m), lambda s, st, n=n, m=m: b_not(eq(s[n], s[m]))))
            if n in es and m in es:
                d0 = sub(es[n], es[m])
                out.append(Cand('%s-%s unchanged' % (n, m), lambda s, st, n=n, m=m, d0=d0: eq(sub(s[n], s[m]), d0)))
                s0 = add(es[n], es[m])
                out.append(Cand('%s+%s unchanged' % (n, m), lambda s, st, n=n, m=m, s0=s0: eq(add(s[n], s[m]), s0)))
    # ghost predicates
    flags = [n for n in names if n.startswith('phi') and cut.phiw.get(int(n[3:]), 64) <= 32 or n in cut.small]
    if len(allv) * len(allv) * len(flags) <= 600:
        for f in flags:
            for n in allv:
                for m in allv:
                    if n == m or f in (n, m): continue
                    out.append(Cand('%s == 0 | %s < %s' % (f, n, m), lambda s, st, n=n, m=m, f=f: b_or(eq(s[f], 0), ult(s[n], s[m]))))
    cut.flags = flags
    for f in flags:
        out.append(Cand('%s <= 1' % f, lambda s, st, f=f: ule(s[f], 1)))
        for b in st.hval:
            b = ext(b, 64)
            for n in allv:
                if n == f: continue
                out.append(Cand('%s == 0 | %s < %s' % (f, b, n), lambda s, st, n=n, b=b, f=f: b_or(eq(s[f], 0), ult(b, s[n]))))
                out.append(Cand('%s != 0 | %s <= %s' % (f, n, b), lambda s, st, n=n, b=b, f=f: b_or(b_not(eq(s[f], 0)), ule(s[n], b))))
    for k, h in st.hpred:
        for n in allv:
            for dlt in (0,):
                out.append(Cand('k<%s => H' % n, lambda s, st, n=n, k=k, h=h: b_imp(ult(k, s[n]), h)))
                out.append(Cand('k>=%s => H' % n, lambda s, st, n=n, k=k, h=h: b_imp(ule(s[n], k), h)))
            for m in allv:
                if m != n: out.append(Cand('%s<=k<%s => H' % (m, n), lambda s, st, n=n, m=m, k=k, h=h: b_imp(b_and(ule(s[m], k), ult(k, s[n])), h)))
            for f in flags:
                if f != n:
                    out.append(Cand('%s==0 & k<%s => H' % (f, n), lambda s, st, n=n, f=f, k=k, h=h: b_imp(b_and(eq(s[f], 0), ult(k, s[n])), h)))
                    out.append(Cand('%s!=0 & k<%s => H' % (f, n), lambda s, st, n=n, f=f, k=k, h=h: b_imp(b_and(b_not(eq(s[f], 0)), ult(k, s[n])), h)))
    for idx, val, size in st.helem:
        for key in cut.conts:
            out.append(Cand('idx < size => C%d[idx]==val' % key[0], lambda s, st, key=key, idx=idx, val=val, size=size: cont_elem(self, cut, st, key, idx, val, size)))
            if not st.hval: continue
            for v in st.hval:
                for n in allv:
                    if n[0] == 'c' and not n.startswith('c%d.%d.' % key):
                        out.append(Cand('%s == v & idx < size => C%d[idx]==val' % (n, key[0]), lambda s, st, key=key, idx=idx, val=val, size=size, n=n, v=v: b_imp(eq(s[n], v), cont_elem(self, cut, st, key, idx, val, size))))
        for obj in cut.lazies:
            out.append(Cand('A%d[idx]==val' % obj.id, lambda s, st, obj=obj, idx=idx, val=val, size=size: arr_elem(self, st, obj, idx, val, size)))
            for n in allv:
                out.append(Cand('idx*size<%s => A%d[idx]==val' % (n, obj.id), lambda s, st, n=n, obj=obj, idx=idx, val=val, size=size: b_imp(ult(mul(idx, size), s[n]), arr_elem(self, st, obj, idx, val, size))))
                out.append(Cand('idx*size>=%s => A%d[idx]==val' % (n, obj.id), lambda s, st, n=n, obj=obj, idx=idx, val=val, size=size: b_imp(ule(s[n], mul(idx, size)), arr_elem(self, st, obj, idx, val, size))))
    # linear search: the elements passed by differ from a value the loop compares with
    srch = {}
    for a, b, w in (log or [])[:400]:
        for x in (a, b):
            if z3.is_expr(x) and not mentions(x, hsyms) and base_syms.has(symset([x])): srch[x.get_id()] = (x, w)
    for idx, val, size in st.helem:
        for x, w in list(srch.values())[:6]:
            if w < size * 8: continue
            if w > size * 8: x = norm(z3.Extract(size * 8 - 1, 0, x)); w = size * 8
            if is_int(x): continue
            ne = b_not(eq(val if is_int(val) or val.size() == w else norm(z3.Extract(w - 1, 0, val)), x, w))
            for n in allv:
                out.append(Cand('idx<%s => elem != searched' % n, lambda s, st, n=n, idx=idx, ne=ne, size=size: b_imp(ult(mul(idx, size), s[n]), ne)))
                if size > 1: out.append(Cand('idx<%s => elem != searched' % n, lambda s, st, n=n, idx=idx, ne=ne: b_imp(ult(idx, s[n]), ne)))
    for f in st.hfn:
        for n in names:
            for dlt in (0, 1):
                out.append(Cand('%s == %s(t+%d)' % (n, f, dlt), lambda s, st, n=n, f=f, dlt=dlt: eq(s[n], self.eval_fn(st, f, add(s['t'], dlt)))))
    # predicates of the harness over the loop variables (p: position pointed at, f: flag, v: any number)
    if st.hinv:
        import itertools
        raw = snapshot(self, cut, st, 0)[1]
        kinds = {'p': [n for n in names if isinstance(raw.get(n), Ptr)], 'f': [n for n in flags], 'v': [n for n in names if n in es and not isinstance(raw.get(n), Ptr)]}
        for f, ks in st.hinv:
            for tup in itertools.product(*[kinds[k] for k in ks]):
                if len(set(tup)) != len(tup): continue
                out.append(Cand('%s(%s)' % (f, ', '.join(tup)), lambda s, st, f=f, tup=tup: self.eval_fn(st, f, [bv(s[n], 64) if not is_int(s[n]) else s[n] for n in tup])))
    for g in self.opts.get('cands', []):
        out += g(self, cut, st, es, hs)
    return out

def cont_elem(self, cut, st, key, idx, val, size):
    k = st.cont.get(key)
    if k is None: return False
    return k.elem_is(self, st, cut.contobj[key], key[1], idx, val, size)
def arr_elem(self, st, obj, idx, val, size):
    from vcg import lread
    c = self.lazy_of(st, obj, obj.es or 1)
    if c.es != size: return False
    v = lread(c.node, mul(idx, size), size)
    return eq(v, val if is_int(val) or val.size() == size * 8 else norm(z3.Extract(size * 8 - 1, 0, val)), size * 8)

def cut_loop(self, st, L):
    fr = st.frames[-1]
    cut = Cut(); cut.L = L; cut.depth = len(st.frames) - 1
    blk = fr.fn.blocks[L.header]
    cut.phis = [i['id'] for i in blk if i['op'] == 'phi']
    cut.phiw = {i['id']: (int(i['t'][1:]) if i['t'][0] == 'i' else 64) for i in blk if i['op'] == 'phi'}
    cut.cells = []; cut.lazies = []; cut.conts = []; cut.contobj = {}; cut.poison = set(); cut.dead = {}; cut.dropcont = set(); cut.abst = []; cut.small = set(); cut.cellw = {}
    entry = st; cut.fresh0 = fresh_count()
    self.stats['loops_cut'] += 1
    # --- frame condition
    log = []
    for rnd in range(10):
        log = []
        hs, hraw, backs = houdini_run(self, cut, entry, [], log)
        changed = False
        objs = {}
        for b in backs:
            for (obj, off, size) in b.wlog:
                if obj.id not in entry.mem: continue
                if obj.id in entry.dead: continue
                objs[obj.id] = obj
                if obj.x is not None and obj.x.owns_writes:
                    if obj not in cut.abst: cut.abst.append(obj); changed = True
                    continue
                if off is None:
                    if obj not in cut.lazies:
                        cut.lazies.append(obj); changed = True
                        cut.cells = [c for c in cut.cells if c[0] is not obj]
                    continue
                if obj in cut.lazies: continue
                # inside a registered container?
                hit = None
                for (oid, coff), k in entry.cont.items():
                    if oid == obj.id and coff <= off < coff + k.bytes: hit = (oid, coff)
                if hit is not None and hit not in cut.dropcont:
                    if all(b2.cont.get(hit) is not None and type(b2.cont[hit]) is type(entry.cont[hit]) for b2 in backs):
                        if hit not in cut.conts: cut.conts.append(hit); cut.contobj[hit] = obj; changed = True
                        continue
                    cut.dropcont.add(hit)
                ent = (obj, off, size)
                if not any(c[0] is obj and c[1] == off and c[2] == size for c in cut.cells):
                    # overlapping different-size cells: fall back to bytes of the union via poison
                    cut.cells.append(ent); changed = True
            for oid in b.dead:
                if oid not in entry.dead and oid in entry.mem and oid not in cut.dead: cut.dead[oid] = b.dead[oid]; changed = True
        # objects of pointers must not vary
        for b in backs:
            env = b.frames[cut.depth].env
            for pid in cut.phis:
                a, c = entry.frames[cut.depth].env[pid], env[pid]
                if isinstance(a, PtrInt): a = a.p
                if isinstance(c, PtrInt): c = c.p
                if (isinstance(a, Ptr) or isinstance(c, Ptr)) and ('phi', pid) not in cut.poison:
                    if not (isinstance(a, Ptr) and isinstance(c, Ptr) and a.obj is c.obj): cut.poison.add(('phi', pid)); changed = True
                elif isinstance(a, FnPtr) and a != c and ('phi', pid) not in cut.poison: cut.poison.add(('phi', pid)); changed = True
            for (obj, off, size) in cut.cells:
                if (obj.id, off, size) in cut.poison: continue
                ec = entry.mem[obj.id]; bc = b.mem[obj.id]
                if not hasattr(ec, 'c') or not hasattr(bc, 'c'):
                    if obj not in cut.lazies:
                        cut.lazies.append(obj); changed = True
                    continue
                a = self.cell_read(ec, off, size); c = self.cell_read(bc, off, size)
                bad = False
                if isinstance(a, Ptr) or isinstance(c, Ptr): bad = not (isinstance(a, Ptr) and isinstance(c, Ptr) and a.obj is c.obj)
                elif isinstance(a, (FnPtr, PtrInt)) or isinstance(c, (FnPtr, PtrInt)): bad = not (a == c)
                elif a is UNDEF or c is UNDEF: bad = True
                if bad: cut.poison.add((obj.id, off, size)); changed = True
        cut.cells = [c for c in cut.cells if c[0] not in cut.lazies]
        if not changed: break
    else: raise Unsupported('loop frame did not stabilise')
    cut.objs = set()
    for pid in cut.phis:
        v = entry.frames[cut.depth].env[pid]
        if isinstance(v, Ptr) and v.obj is not None: cut.objs.add(v.obj)
    for (obj, off, size) in cut.cells:
        c = entry.mem[obj.id]
        if hasattr(c, 'c'):
            v = self.cell_read(c, off, size)
            if isinstance(v, Ptr) and v.obj is not None: cut.objs.add(v.obj)
        cut.cellw['m%d.%d' % (obj.id, off)] = 8 * size
        if size < 8: cut.small.add('m%d.%d' % (obj.id, off))
    cut.objs = sorted(cut.objs, key=lambda o: o.id)
    es, eraw = snapshot(self, cut, entry, 0)
    disc = [snapshot(self, cut, b, add(cut.t, 1))[0] for b in backs]
    # --- candidates, entry filter
    cands = gen_cands(self, cut, entry, es, hs, disc, log)
    self.stats['cand_tried'] += len(cands)
    bad = set(map(id, keep_true(self, entry.pc, [(c, c.fn(es, entry)) for c in cands])))
    cands = [c for c in cands if id(c) not in bad]
    hk = (fr.fn.name, L.header, len(st.frames))
    # --- Houdini
    for rnd in range(60):
        hs, hraw, backs = houdini_run(self, cut, entry, cands)
        bad = set()
        for b in backs:
            bs, _ = snapshot(self, cut, b, add(cut.t, 1))
            items = [(c, c.fn(bs, b)) for c in cands if id(c) not in bad]
            bad |= set(map(id, keep_true(self, b.pc, items)))
        if not bad: break
        cands = [c for c in cands if id(c) not in bad]
    else: raise Unsupported('Houdini did not converge')
    self.stats['cand_kept'] += len(cands)
    # --- termination
    ok = True; meas = None
    if backs and not self.opts.get('may_diverge'):
        bsn = [(snapshot(self, cut, b, add(cut.t, 1))[0], b) for b in backs]
        ok = False
        ms = []
        for c in cands:
            if c.meta and c.meta[0] == 'le': ms.append((c.desc, lambda s, c=c: sub(c.meta[2](s), c.meta[1](s))))
        for n in hs:
            if n != 't' and n in es: ms.append((n, lambda s, n=n: s[n]))
        for c in cands:
            if c.meta and c.meta[0] == 'le':
                for f in cut.flags:
                    ms.append(('(%s, %s != 0)' % (c.desc, f), lambda s, c=c, f=f: add(mul(2, sub(c.meta[2](s), c.meta[1](s))), ite(eq(s[f], 0), 0, 1, 64))))
        seen = set()
        for desc, m in ms:
            if desc in seen: continue
            seen.add(desc)
            m0 = m(hs)
            good = True
            for bs, b in bsn:
                f = ult(m(bs), m0)
                if f is True: continue
                if f is False or self.solver.check(b.pc, z3.Not(f), quick_only=True) != 'unsat': good = False; break
            if good: ok = True; meas = desc; break
    fn, loc = short_(fr.fn.dem), self.where(st)[1]
    self.loopinfo[(fn, loc)] = dict(function=fn, loc=loc, invariants=[c.desc for c in cands][:200], kept=len(cands), measure=meas, frame=len(cut.cells) + len(cut.conts) + len(cut.lazies))
    if self.mode == 'check':
        o = self.obl.setdefault(('loop invariant', 'established and preserved', fn, loc), [0, 0])
        o[0] += len(cands) * 2; o[1] += len(cands) * 2
        o = self.obl.setdefault(('loop', 'termination', fn, loc), [0, 0]); o[0] += 1
        if ok: o[1] += 1
        else: self.fail(st, 'loop', 'termination', None, 'failed')
    # --- continue from an arbitrary iteration
    from vcg import LoopRec
    t = freshk(st, 't', 1 << 56)
    havoc_loop(self, cut, st, eqs(cands, t), upper(cands))
    if st.ax: self.inst_axioms(st, [t, add(t, 1)])
    s1, _ = snapshot(self, cut, st, t)
    for c in cands: st.assume(c.fn(s1, st))
    if not st.alive: return False
    rec = LoopRec('final', L)
    st.loops[(st.frames[-1].uid, L.header)] = rec
    # loop writes are part of the frame of an enclosing loop
    if st.wlog is not None:
        for (obj, off, size) in cut.cells: st.wlog.add((obj, off, size))
        for obj in cut.lazies: st.wlog.add((obj, None, None))
        for obj in cut.abst: st.wlog.add((obj, None, None))
        for key in cut.conts: st.wlog.add((cut.contobj[key], key[1], 8))
    return True

def short_(d):
    from vcg import short
    return short(d)
