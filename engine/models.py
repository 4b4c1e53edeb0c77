"""Contracts assumed for what is outside /repo: C++ runtime, libc, parts of libstdc++.
Each entry is a contract on a dependency (listed as an assumption in the evidence); code of
/repo is never modelled here, it is executed from its IR."""
import re
import z3
from sym import *
from vcg import Node, Lazy, Cells, lread, Failure

TABLE = []
def model(rx, doc=None, pure=False):
    def d(f):
        f.doc = doc or rx; f.pure = pure
        TABLE.append((re.compile(rx), f)); return f
    return d
def lookup(extra=()):
    def look(name, dem, has_body):
        d = norm_dem(dem)
        for rx, f in list(extra) + TABLE:
            if rx.match(d):
                if getattr(f, 'only_ext', False) and has_body: continue
                return f
        return None
    return look
def norm_dem(d):
    d = re.sub(r'\[abi:\w+\]', '', d)
    d = d.replace('std::__cxx11::', 'std::')
    d = d.replace('> >', '>>').replace('> >', '>>')
    d = d.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    d = d.replace('std::basic_string<char32_t, std::char_traits<char32_t>, std::allocator<char32_t>>', 'std::u32string')
    d = d.replace('std::basic_string_view<char, std::char_traits<char>>', 'std::string_view')
    return d
V = lambda x=None: ('val', x)

def cstr(e, st, p):
    """constant C string at p"""
    if p.obj is None: return ''
    c = st.mem[p.obj.id]; s = ''; o = p.off
    while True:
        b = e.load(st, Ptr(p.obj, o), 1, 'i8', check=False)
        if not is_int(b) or b == 0: return s
        s += chr(b); o += 1

# ---------------------------------------------------------------- contract language
@model(r'vp_any$')
def vp_any(e, st, ins, a, cx):
    name = cstr(e, st, a[0]); w = a[1]
    v = fresh(name, w)
    e.inputs.append((name, 'any', v))
    st.ins = st.ins + (len(e.inputs) - 1,)
    return V(v if w == 64 else norm(z3.ZeroExt(64 - w, v)))
@model(r'vp_len$')
def vp_len(e, st, ins, a, cx):
    v = freshk(st, cstr(e, st, a[0]), 1 << 56)
    e.inputs.append((cstr(e, st, a[0]), 'len', v))
    st.ins = st.ins + (len(e.inputs) - 1,)
    st.hval = st.hval + (v,)
    return V(v)
@model(r'vp_ghost$')
def vp_ghost(e, st, ins, a, cx):
    v = freshk(st, cstr(e, st, a[0]), 1 << 57)
    e.inputs.append((cstr(e, st, a[0]), 'ghost', v))
    st.ins = st.ins + (len(e.inputs) - 1,)
    return V(v)
@model(r'vp_bytes$')
def vp_bytes(e, st, ins, a, cx):
    name = cstr(e, st, a[0])
    f = freshf(name, 8)
    o = e.new_obj(st, a[1], name, ro=True, kind='input', es=1, content=Lazy(1, Node('uf', a=f)))
    e.inobj[name] = o
    e.inputs.append((name, 'bytes', (f, a[1])))
    st.ins = st.ins + (len(e.inputs) - 1,)
    return V(Ptr(o, 0))
@model(r'vp_buf$')
def vp_buf(e, st, ins, a, cx):
    name = cstr(e, st, a[0])
    f = freshf(name, 8)
    o = e.new_obj(st, a[1], name, ro=False, kind='input', es=1, content=Lazy(1, Node('uf', a=f)))
    e.inputs.append((name, 'bytes', (f, a[1])))
    st.ins = st.ins + (len(e.inputs) - 1,)
    return V(Ptr(o, 0))
@model(r'vp_requires$')
def vp_requires(e, st, ins, a, cx):
    st.assume(a[0])
    if st.alive and a[0] is not True and e.solver.check(st.pc) == 'unsat': st.alive = False
    return V()
@model(r'vp_ensures$')
def vp_ensures(e, st, ins, a, cx):
    if a[0] is UNDEF: e.prove(st, False, 'ensures', 'uninitialised: ' + cstr(e, st, a[1])); return V()
    e.prove(st, a[0], 'ensures', cstr(e, st, a[1]))
    return V()
@model(r'vp_reach$')
def vp_reach(e, st, ins, a, cx):
    l = cstr(e, st, a[0])
    if e.mode == 'check' and not e.reach.get(l):
        r = e.solver.check(st.pc)
        e.reach[l] = r == 'sat'
    return V()
@model(r'vp_aborts$')
def vp_aborts(e, st, ins, a, cx):
    st.ghost['may_abort'] = True
    e.reach.setdefault('specified abort', False); return V()
@model(r'vp_hint_pred$')
def vp_hint_pred(e, st, ins, a, cx):
    st.hpred = st.hpred + ((a[0], a[1]),); return V()
@model(r'vp_hint_elem$')
def vp_hint_elem(e, st, ins, a, cx):
    st.helem = st.helem + ((a[0], a[1], a[2]),); return V()
@model(r'vp_hint_val$')
def vp_hint_val(e, st, ins, a, cx):
    st.hval = st.hval + (a[0],); return V()
@model(r'vp_hint_fn$')
def vp_hint_fn(e, st, ins, a, cx):
    st.hfn = st.hfn + (a[0].name,); return V()
@model(r'vp_hint_inv$')
def vp_hint_inv(e, st, ins, a, cx):
    st.hinv = st.hinv + ((a[0].name, cstr(e, st, a[1])),); return V()
@model(r'vp_fun$', pure=True)
def vp_fun(e, st, ins, a, cx):
    f = z3.Function('gf_' + cstr(e, st, a[0]), z3.BitVecSort(64), z3.BitVecSort(64))
    BND[f.name()] = 1 << 57
    v = f(bv(a[1], 64))
    st.assume(z3.ULT(v, z3.BitVecVal(1 << 57, 64)))
    return V(v)
@model(r'vp_axiom$')
def vp_axiom(e, st, ins, a, cx):
    st.ax = st.ax + (a[0].name,)
    e.inst_axioms(st, [0, 1] + st.ghost.get('axterms', []))
    return V()
@model(r'vp_use$')
def vp_use(e, st, ins, a, cx):
    st.ghost['axterms'] = st.ghost.get('axterms', []) + [a[0]]
    e.inst_axioms(st, [a[0]]); return V()
@model(r'vp_readable$')
def vp_readable(e, st, ins, a, cx):
    p, n = a
    if p.obj is None: return V(eq(n, 0))
    if p.obj.id in st.dead: return V(eq(n, 0))
    return V(b_or(eq(n, 0), b_and(ule(p.off, p.obj.size), ule(n, sub(p.obj.size, p.off)))))
@model(r'vp_same_object$')
def vp_same_object(e, st, ins, a, cx): return V(a[0].obj is a[1].obj)
@model(r'vp_native$')
def vp_native(e, st, ins, a, cx): return V(False)
@model(r'vp_true$')
def vp_true(e, st, ins, a, cx): return V(True)

# ---------------------------------------------------------------- llvm intrinsics
@model(r'llvm\.(lifetime|dbg|experimental\.noalias|stacksave|stackrestore|invariant|assume)')
def llvm_nop(e, st, ins, a, cx): return V(NULL if 'stacksave' in ins['callee'][1] else None)
@model(r'llvm\.(memcpy|memmove)')
def llvm_memcpy(e, st, ins, a, cx):
    e.memcpy(st, a[0], a[1], a[2]); return V()
@model(r'(memcpy|memmove)$')
def c_memcpy(e, st, ins, a, cx):
    e.memcpy(st, a[0], a[1], a[2]); return V(a[0])
@model(r'(llvm\.memset|memset$)')
def llvm_memset(e, st, ins, a, cx):
    p, v, n = a[0], a[1], a[2]
    if 'llvm' not in ins['callee'][1]:
        v = v & 0xff if is_int(v) else norm(z3.Extract(7, 0, v))
    if is_int(n):
        if n == 0: return V(p)
        if not e.access(st, p, n, True): return V(p)
        c = st.mem[p.obj.id]
        if isinstance(c, Cells) and is_int(p.off) and n <= 4096:
            c = c.copy()
            if is_int(v) and v == 0 and n % 8 == 0 and n > 8:
                for i in range(0, n, 8): e.cell_write(c, p.off + i, 8, 0)
            elif is_int(v) and v == 0 and n in (2, 4, 8): e.cell_write(c, p.off, n, 0)
            else:
                for i in range(n): e.cell_write(c, p.off + i, 1, v)
            st.mem[p.obj.id] = c; e.wlog(st, p.obj, p.off, n)
            return V(p)
    else: e.range_ok(st, p, n, True)
    if not st.alive: return V(p)
    if p.obj is None: return V(p)
    l = e.lazy_of(st, p.obj, 1)
    if l.es != 1:
        if is_int(v): v = sum(v << (8 * i) for i in range(l.es))
        else: raise Unsupported('memset of wide elements')
    st.mem[p.obj.id] = Lazy(l.es, Node('fill', l.node, (p.off, n, v))); e.wlog(st, p.obj, None, None)
    return V(p)
@model(r'llvm\.eh\.typeid\.for')
def eh_typeid(e, st, ins, a, cx):
    return V(e.typeid(a[0].obj.name))
@model(r'llvm\.(umin|umax|smin|smax)\.')
def llvm_minmax(e, st, ins, a, cx):
    n = ins['callee'][1].split('.')[1]; w = int(ins['t'][1:])
    A, B = bv(a[0], w), bv(a[1], w)
    c = {'umin': z3.ULT(A, B), 'umax': z3.UGT(A, B), 'smin': A < B, 'smax': A > B}[n]
    return V(ite(nbool(c), a[0], a[1], w))
@model(r'llvm\.(trap|debugtrap)')
def llvm_trap(e, st, ins, a, cx):
    e.prove(st, False, 'abort', 'trap reached'); return ('end',)
@model(r'llvm\.ctpop')
def llvm_ctpop(e, st, ins, a, cx):
    w = int(ins['t'][1:]); x = a[0]
    if is_int(x): return V(bin(x).count('1'))
    s = z3.BitVecVal(0, w)
    for i in range(w): s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
    return V(norm(s))
@model(r'llvm\.(ctlz|cttz)')
def llvm_ctz(e, st, ins, a, cx):
    w = int(ins['t'][1:]); x = a[0]; lead = 'ctlz' in ins['callee'][1]
    r = z3.BitVecVal(w, w)
    for i in (range(w) if lead else reversed(range(w))):
        r = z3.If(z3.Extract(i, i, bv(x, w)) == 1, z3.BitVecVal(w - 1 - i if lead else i, w), r)
    return V(norm(r))
@model(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow')
def llvm_ovf(e, st, ins, a, cx):
    _, k = ins['callee'][1].split('.')[:2]
    w = int(re.search(r'\.i(\d+)$', ins['callee'][1]).group(1))
    A, B = bv(a[0], w), bv(a[1], w); s = k[0] == 's'; op = k[1:]
    ext = (lambda x: z3.SignExt(w, x)) if s else (lambda x: z3.ZeroExt(w, x))
    f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
    r = f(A, B); big = f(ext(A), ext(B))
    ov = nbool(big != ext(r))
    return V(Agg({0: (norm(r), w // 8), w // 8: (ov, 1)}))
@model(r'llvm\.(va_start|va_end|va_copy)')
def llvm_va(e, st, ins, a, cx):
    """an argument list is its first 8 bytes: 1 when no argument has been taken from it yet"""
    n = ins['callee'][1]
    if 'va_start' in n: e.store(st, a[0], 8, 1)
    elif 'va_copy' in n:
        v = e.load(st, a[1], 8, 'i64')
        if not st.alive: return ('end',)
        e.store(st, a[0], 8, v)
    else: e.store(st, a[0], 8, 0)
    return V() if st.alive else ('end',)
llvm_va.doc = 'va_start/va_copy/va_end: argument lists are abstract (used or not used)'
@model(r'llvm\.is\.constant')
def llvm_isc(e, st, ins, a, cx): return V(False)
@model(r'llvm\.(expect)')
def llvm_expect(e, st, ins, a, cx): return V(a[0])
@model(r'llvm\.threadlocal\.address')
def llvm_tls(e, st, ins, a, cx): return V(a[0])
@model(r'llvm\.(abs)\.')
def llvm_abs(e, st, ins, a, cx):
    w = int(ins['t'][1:]); x = a[0]
    return V(norm(z3.If(bv(x, w) < 0, -bv(x, w), bv(x, w))))
@model(r'llvm\.fsh[lr]')
def llvm_fsh(e, st, ins, a, cx):
    w = int(ins['t'][1:]); l = 'fshl' in ins['callee'][1]
    c = z3.Concat(bv(a[0], w), bv(a[1], w)); s = z3.ZeroExt(w, z3.URem(bv(a[2], w), z3.BitVecVal(w, w)))
    return V(norm(z3.Extract(2 * w - 1, w, c << s) if l else z3.Extract(w - 1, 0, z3.LShR(c, s))))
@model(r'llvm\.bswap')
def llvm_bswap(e, st, ins, a, cx):
    w = int(ins['t'][1:]); x = bv(a[0], w)
    return V(norm(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])))

# ---------------------------------------------------------------- C++ runtime
@model(r'(abort|std::terminate\(\)|__clang_call_terminate|std::__glibcxx_assert_fail|std::__replacement_assert|exit|_exit|__assert_fail)(\(|$)')
def rt_abort(e, st, ins, a, cx):
    if st.ghost.get('may_abort'):
        if e.mode == 'check' and not e.reach.get('specified abort'): e.reach['specified abort'] = e.solver.check(st.pc) == 'sat'
        return ('end',)
    e.prove(st, False, 'abort', 'abort/terminate not reached'); return ('end',)
@model(r'utki::assert_always\(')
def assert_always(e, st, ins, a, cx):
    if st.ghost.get('may_abort'):
        if e.mode == 'check' and a[0] is not True and not e.reach.get('specified abort'):
            e.reach['specified abort'] = (e.solver.check(st.pc) if a[0] is False else e.solver.check(st.pc, b_not(a[0]))) == 'sat'
        st.assume(a[0])
        return V() if st.alive else ('end',)
    e.prove(st, a[0], 'assert', 'ASSERT holds'); return V() if st.alive else ('end',)
assert_always.doc = 'utki::assert_always (DEBUG): treated as an obligation on its condition'
@model(r'__cxa_pure_virtual|std::__throw_bad_function_call\(\)')
def rt_bfc(e, st, ins, a, cx):
    return ('throw', e.new_exc(st, '_ZTISt17bad_function_call'))
@model(r'operator new(\[\])?\(')
def op_new(e, st, ins, a, cx):
    n = a[0]
    o = e.new_obj(st, n, 'heap', kind='heap', es=e.opts.get('heap_es', 1))
    return V(Ptr(o, 0))
@model(r'operator delete(\[\])?\(')
def op_del(e, st, ins, a, cx):
    p = a[0]
    if p.obj is None: return V()
    if p.obj.id in st.dead: e.prove(st, False, 'memory', 'double free'); return V()
    if p.obj.kind != 'heap': e.prove(st, False, 'memory', 'delete of non-heap object'); return V()
    e.prove(st, eq(p.off, 0), 'memory', 'delete of interior pointer')
    e.kill(st, p.obj, 'freed')
    return V()
@model(r'__cxa_allocate_exception$')
def cxa_alloc(e, st, ins, a, cx):
    return V(Ptr(e.new_obj(st, a[0], 'exception', kind='heap'), 0))
@model(r'__cxa_free_exception$')
def cxa_free(e, st, ins, a, cx): return V()
@model(r'__cxa_throw$')
def cxa_throw(e, st, ins, a, cx):
    return ('throw', (a[0], a[1].obj.name))
@model(r'__cxa_begin_catch$')
def cxa_begin(e, st, ins, a, cx):
    exc = st.exc.pop()
    st.caught.append(exc)
    return V(a[0])
@model(r'__cxa_end_catch$')
def cxa_end(e, st, ins, a, cx):
    if st.caught: st.caught.pop()
    return V()
@model(r'__cxa_rethrow$')
def cxa_rethrow(e, st, ins, a, cx):
    if not st.caught:
        e.prove(st, False, 'abort', 'rethrow without exception'); return ('end',)
    return ('throw', st.caught[-1])
@model(r'__cxa_guard_(acquire|release|abort)')
def cxa_guard(e, st, ins, a, cx):
    raise Unsupported('function-local static')
@model(r'__cxa_atexit')
def cxa_atexit(e, st, ins, a, cx): return V(0)
@model(r'std::current_exception\(\)')
def cur_exc(e, st, ins, a, cx):
    # sret: std::exception_ptr
    e.store(st, a[0], 8, st.caught[-1][0] if st.caught else NULL); return V()
cur_exc.doc = 'std::current_exception: a reference to the exception handled last'
@model(r'std::rethrow_exception\(')
def re_exc(e, st, ins, a, cx):
    p = e.load(st, a[0], 8, 'p')
    if p.obj is None or p.obj.id not in e.exc_ti:
        e.prove(st, False, 'abort', 'rethrow_exception of an exception'); return ('end',)
    return ('throw', (p, e.exc_ti[p.obj.id]))
re_exc.doc = 'std::rethrow_exception throws the exception referred to'
@model(r'std::__exception_ptr::exception_ptr::_M_(addref|release)\(\)|std::nested_exception::~nested_exception\(')
def exc_ref(e, st, ins, a, cx): return V()
exc_ref.doc = 'exceptions live as long as they are referred to (reference counts of std::exception_ptr)'
@model(r'__cxa_current_exception_type$')
def cur_exc_type(e, st, ins, a, cx):
    if not st.caught: return V(NULL)
    return V(e.val(st, ['g', st.caught[-1][1]]))
@model(r'__cxa_bad_typeid$')
def bad_typeid_(e, st, ins, a, cx): return ('throw', e.new_exc(st, '_ZTISt10bad_typeid'))
@model(r'__cxa_get_exception_ptr$')
def cxa_gep(e, st, ins, a, cx): return V(a[0])
@model(r'std::(invalid_argument|logic_error|runtime_error|out_of_range|bad_alloc|exception|bad_cast|length_error)::~?\1\(')
def exc_ctor(e, st, ins, a, cx): return V()
exc_ctor.doc = 'construction/destruction of std exceptions has no other effect'
for nm, ti in [('out_of_range_fmt', '_ZTISt12out_of_range'), ('out_of_range', '_ZTISt12out_of_range'), ('logic_error', '_ZTISt11logic_error'), ('length_error', '_ZTISt12length_error'), ('bad_alloc', '_ZTISt9bad_alloc'), ('invalid_argument', '_ZTISt16invalid_argument'), ('bad_array_new_length', '_ZTISt9bad_alloc'), ('bad_cast', '_ZTISt8bad_cast')]:
    def mk(ti):
        def f(e, st, ins, a, cx): return ('throw', e.new_exc(st, ti))
        return f
    model(r'std::__throw_%s\(' % nm)(mk(ti))
@model(r'__dynamic_cast$')
def dyn_cast(e, st, ins, a, cx):
    """[abi] cast along the RTTI of the most derived object"""
    p, dst = a[0], a[2]
    if p.obj is None: return V(NULL)
    vp = e.load(st, p, 8, 'p')
    if not st.alive: return ('end',)
    if vp.obj is None or not vp.obj.name.startswith('_ZTV'): raise Unsupported('dynamic_cast without vtable')
    top = e.load(st, Ptr(vp.obj, add(vp.off, mask(64) - 15)), 8, 'i64', check=False)
    if hasattr(top, 'obj'): top = top.off
    else: top = e.as_int(st, top, 64)
    ti = e.load(st, Ptr(vp.obj, add(vp.off, mask(64) - 7)), 8, 'p', check=False)
    c = [o for t, o in e.subobjects(ti.obj.name) if t == dst.obj.name]
    if len(c) > 1: raise Unsupported('ambiguous base')
    if not c: return V(NULL)
    return V(Ptr(p.obj, add(add(p.off, top), c[0])))
dyn_cast.doc = 'dynamic_cast follows the RTTI of the object (public non-virtual bases)'
@model(r'__cxa_bad_cast$')
def bad_cast_(e, st, ins, a, cx): return ('throw', e.new_exc(st, '_ZTISt8bad_cast'))
@model(r'std::allocator<.*>::~?allocator\(|std::__new_allocator<.*>::~?__new_allocator\(')
def alloc_nop(e, st, ins, a, cx): return V()
@model(r'std::is_constant_evaluated\(\)|std::__is_constant_evaluated\(\)')
def is_ce(e, st, ins, a, cx): return V(False)

# ---------------------------------------------------------------- libc
@model(r'strlen$')
def c_strlen(e, st, ins, a, cx): return strlen_(e, st, a[0])
def strlen_(e, st, p):
    if p.obj is None:
        e.prove(st, False, 'memory', 'strlen of null'); return ('end',)
    l = st.mem[p.obj.id]
    # concrete string
    if is_int(p.off) and is_int(p.obj.size):
        o = p.off
        while o < p.obj.size:
            b = e.load(st, Ptr(p.obj, o), 1, 'i8', check=False)
            if not is_int(b): break
            if b == 0: return V(o - p.off)
            o += 1
    n = st.ghost.get(('strlen', p.obj.id, p.off if is_int(p.off) else p.off.get_id()))
    if n is None:
        # the terminator must exist inside the object: known for objects registered as C strings
        k = st.ghost.get(('cstr', p.obj.id))
        if k is None:
            import stdmodels
            r = stdmodels.strlen_small(e, st, p)
            if isinstance(r, tuple): return r
            if r is not None: return ('fork', r)
            return strlen_any(e, st, p)
        n = sub(k, p.off)
        e.prove(st, ule(p.off, k), 'memory', 'strlen within string')
    return V(n)
def concrete_text(e, st, p):
    if p.obj is None or not (is_int(p.off) and is_int(p.obj.size)): return None
    r = []; o = p.off
    while o < p.obj.size:
        b = e.load(st, Ptr(p.obj, o), 1, 'i8', check=False)
        if not is_int(b): return None
        if b == 0: return r
        r.append(b); o += 1
    return None
@model(r'strcmp$')
def c_strcmp(e, st, ins, a, cx):
    p, q = concrete_text(e, st, a[0]), concrete_text(e, st, a[1])
    if p is None or q is None: raise Unsupported('strcmp of texts which are not constant')
    return V(0 if p == q else 1 if p > q else 0xffffffff)
def strlen_any(e, st, p):
    """object of any size: its last byte must be a terminator (sufficient); the result is the first one"""
    o = p.obj
    if o.id in st.dead: e.prove(st, False, 'memory', 'strlen of dead object'); return ('end',)
    e.prove(st, ult(p.off, o.size), 'memory', 'C string starts inside the object')
    if not st.alive: return ('end',)
    node = e.lazy_of(st, o, 1).node
    e.prove(st, eq(lread(node, sub(o.size, 1), 1), 0, 8), 'memory', 'C string terminator inside the object')
    if not st.alive: return ('end',)
    n = freshk(st, 'strlen', 1 << 57)
    st.assume(ult(add(p.off, n), o.size)); st.assume(eq(lread(node, add(p.off, n), 1), 0, 8))
    for k in ghosts(e, st): st.assume(b_imp(ult(k_rel(k, p, 1), n), b_not(eq(lread(node, k, 1), 0, 8))))
    if st.ax: e.inst_axioms(st, [add(p.off, n)])
    return V(n)
@model(r'(memchr|__builtin_memchr)$')
def c_memchr(e, st, ins, a, cx):
    p, c, n = a
    if isinstance(c, int): c = c & 0xff
    else: c = norm(z3.Extract(7, 0, c))
    return find_char(e, st, p, c, n, 1, ret='ptr')
@model(r'(memcmp|bcmp|__builtin_memcmp)$')
def c_memcmp(e, st, ins, a, cx): return mem_compare(e, st, a[0], a[1], a[2], 1)
def ghost_eq_axiom(e, st): pass
def mem_compare(e, st, p, q, n, es):
    """result r: r==0 iff equal; otherwise first difference d < n exists.  Instantiated at the
    ghost positions of the harness (k) and at the witness."""
    e.range_ok(st, p, mul(n, es), False); e.range_ok(st, q, mul(n, es), False)
    if not st.alive: return ('end',)
    if is_int(n) and n == 0: return V(0)
    r = fresh('cmp', 32); d = freshk(st, 'diff', 1 << 57)
    A = lambda i: lread(e.lazy_of(st, p.obj, es).node, add(p.off, mul(i, es)), es)
    B = lambda i: lread(e.lazy_of(st, q.obj, es).node, add(q.off, mul(i, es)), es)
    if p.obj is None or q.obj is None:
        return V(0)   # n == 0 was proved
    w = 8 * es
    Ad, Bd = bv(A(d), w), bv(B(d), w)
    st.assume(z3.Implies(r != 0, z3.And(z3.ULT(d, bv(n, 64)), Ad != Bd, (r < 0) == z3.ULT(Ad, Bd))))
    m = factor(n) if es == 1 else 1
    for k in [add(mul(k, m), j) for k in ghosts(e, st) for j in range(m)]:
        c = ult(k, n)
        if c is False: continue
        Ak, Bk = bv(A(k), w), bv(B(k), w)
        st.assume(z3.Implies(z3.And(r == 0, zb(c)), Ak == Bk))
        st.assume(z3.Implies(z3.And(r != 0, zb(ult(k, d))), Ak == Bk))
    if is_int(n) and n <= 16:
        for i in range(n): st.assume(z3.Implies(r == 0, bv(A(i), w) == bv(B(i), w)))
    if st.ax: e.inst_axioms(st, [d] + ([lshr_(d, {2: 1, 4: 2, 8: 3}[m])] if m > 1 else []))
    st.ghost['cmps'] = st.ghost.get('cmps', ()) + ((r, d),)
    return V(r)
def factor(n):
    """n bytes are n/m elements of m bytes (only a hint for instantiation)"""
    if not z3.is_expr(n): return 1
    if z3.is_app_of(n, z3.Z3_OP_BSHL) and z3.is_bv_value(n.arg(1)): return {1: 2, 2: 4, 3: 8}.get(n.arg(1).as_long(), 1)
    if z3.is_app_of(n, z3.Z3_OP_BMUL):
        for c in n.children():
            if z3.is_bv_value(c) and c.as_long() in (2, 4, 8): return c.as_long()
    return 1
def lshr_(d, k): return z3.LShR(bv(d, 64), z3.BitVecVal(k, 64))
def ghosts(e, st):
    return [e.inputs[i][2] for i in st.ins if e.inputs[i][1] == 'ghost'] + list(st.ghost.get('inst', ()))
def find_char(e, st, p, c, n, es, ret):
    """first position i < n with p[i]==c, or none; the universal part is instantiated at ghost positions"""
    e.range_ok(st, p, mul(n, es), False)
    if not st.alive: return ('end',)
    if p.obj is None or (is_int(n) and n == 0):
        return V(NULL if ret == 'ptr' else mask(64))
    node = e.lazy_of(st, p.obj, es).node; w = 8 * es
    at = lambda i: lread(node, add(p.off, mul(i, es)), es)
    i = freshk(st, 'pos', 1 << 57)
    s2 = st.clone()
    # found
    st.assume(z3.ULT(i, bv(n, 64))); st.assume(eq(at(i), c, w))
    st.assume(b_imp(ult(0, i), b_not(eq(at(0), c, w)))); s2.assume(b_imp(ult(0, n), b_not(eq(at(0), c, w))))
    for k in ghosts(e, st):
        st.assume(b_imp(ult(k_rel(k, p, es), i), b_not(eq(lread(node, k_abs(k, p, es), es), c, w))) if True else True)
    # not found
    for k in ghosts(e, s2):
        s2.assume(b_imp(ult(k_rel(k, p, es), n), b_not(eq(lread(node, k_abs(k, p, es), es), c, w))))
    outs = []
    if e.solver.check(st.pc) != 'unsat': outs.append((st, Ptr(p.obj, add(p.off, mul(i, es))) if ret == 'ptr' else i))
    if e.solver.check(s2.pc) != 'unsat': outs.append((s2, NULL if ret == 'ptr' else mask(64)))
    return ('fork', outs)
def k_abs(k, p, es): return mul(k, es)
def k_rel(k, p, es):
    # ghost indices are absolute element positions in the object; relative to p
    o = p.off
    if is_int(o): return sub(k, o // es)
    return sub(k, norm(z3.LShR(o, (es.bit_length() - 1))))
SPACES = (0x20, 9, 10, 11, 12, 13)
def is_space8(c):
    return b_or(*[eq(c, s, 8) for s in SPACES])
@model(r'(bool std::isspace<char>\(char, std::locale const&\)|std::isspace<char>)', pure=True)
def isspace_loc(e, st, ins, a, cx): return V(is_space8(a[0]))
isspace_loc.doc = 'std::isspace(char, std::locale::classic()) is true exactly for " \\t\\n\\v\\f\\r"'
@model(r'std::locale::classic\(\)', pure=True)
def loc_classic(e, st, ins, a, cx): return V(NULL)
@model(r'isspace$', pure=True)
def c_isspace(e, st, ins, a, cx):
    c = a[0]
    if is_int(c): return V(int(c in SPACES))
    return V(norm(z3.If(zb(b_or(*[eq(c, s, 32) for s in SPACES])), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))
c_isspace.doc = 'isspace() in the "C" locale (negative char values: not space, as in glibc)'
